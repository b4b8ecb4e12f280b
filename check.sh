#!/bin/bash
# usage: check.sh <property id> [--tier quick|thorough] | check.sh --replay FILE
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
# LUMOS_TREE: try a scratch copy of the repository instead of /repo (development of seeded bugs only)
PYTHONPATH="$PWD${LUMOS_TREE:+:$LUMOS_TREE}" exec /opt/venv/bin/python -m symx.main "$@"
