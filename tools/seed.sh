#!/bin/bash
# tools/seed.sh ID [--notests]: judge a planted bug in a scratch copy of /repo: applies, sources import,
# stable tests pass, demo passes without and fails with the change, then runs the property's check against it.
id=$1; S=/verif/seeded/$id; W=$(mktemp -d /tmp/seed_XXXXXX); T=$W/repo
trap 'rm -rf "$W"' EXIT
cp -a /repo "$T"
export HOME=/root PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 JAX_PLATFORMS=cpu OPENBLAS_NUM_THREADS=1
cp -a "$S" "$W/demo"
( cd "$T" && PYTHONPATH="$T" timeout 300 bash "$W/demo/demo.sh" >"$W/d0" 2>&1 ); echo "$id demo clean rc=$?"
git -C "$T" apply "$S/patch.diff" || { echo "$id PATCH FAILS"; exit 1; }
( cd "$T" && PYTHONPATH="$T" timeout 300 bash "$W/demo/demo.sh" >"$W/d1" 2>&1 ); echo "$id demo patched rc=$? $(tail -1 "$W/d1" | cut -c1-200)"
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
LUMOS_TREE=$T timeout 900 /verif/check.sh $prop >"$W/c" 2>&1; echo "$id check $prop rc=$? $(grep -m1 VIOLATION "$W/c" | cut -c1-160)"
if [ "$2" != --notests ]; then
  sed "s|/repo|$T|g" /opt/vp/check_sources.py > "$W/cs.py"
  (cd "$T"; PYTHONPATH="$T" /opt/venv/bin/python -W ignore "$W/cs.py" >"$W/b" 2>&1); echo "$id build rc=$? $(tail -1 "$W/b")"
  sed "s|/repo|$T|g; s|PYTHONPATH=/opt/vp/pytest_plugins|PYTHONPATH=$T:/opt/vp/pytest_plugins|" /opt/vp/test.sh > "$W/test.sh"
  bash "$W/test.sh" "$W/out.json" >"$W/t" 2>&1
  /opt/venv/bin/python - "$W/out.json" "$id" <<'P'
import json,sys
o=json.load(open(sys.argv[1])); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
p=set(o.get('passed',[])); m=[t for t in b if t not in p]
print(sys.argv[2],"stable tests missing:",len(m),m[:3])
P
fi
