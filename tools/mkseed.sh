#!/bin/bash
# tools/mkseed.sh ID PROPERTY "needs" "breaks": stdin = python program editing files (cwd = scratch copy of /repo);
# /tmp/demo_ID.py (or demo.py on fd 3) is the demonstration. Creates /verif/seeded/ID.
id=$1; D=/verif/seeded/$id; T=/tmp/mk_$id
mkdir -p "$D"; cp -a /repo "$T"
cat > /tmp/mk_$id.py
(cd "$T" && PYTHONPATH=/verif/tools/seedlib /opt/venv/bin/python /tmp/mk_$id.py) || { rm -r "$T"; exit 1; }
git -C "$T" diff > "$D/patch.diff"
cp /verif/tools/seedlib/demo.sh "$D/"; grep -q "from mini" /tmp/demo_$id.py && cp /verif/tools/seedlib/mini.py "$D/"
cp /tmp/demo_$id.py "$D/demo.py"
/opt/venv/bin/python - "$D/meta.json" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
rm -r "$T" /tmp/mk_$id.py
wc -l "$D/patch.diff"
