#!/bin/bash
# mkseed.sh <scratch repo copy> <id> <property> <needs> <what_it_breaks>  (demo.sh [and check files] given in /tmp/demo/)
set -eu
s=$1 id=$2 d=/verif/seeded/$2; mkdir -p $d; git -C $s diff > $d/patch.diff; git -C $s checkout -q -- .
if grep -q common.sh /tmp/demo/demo.sh; then cp -r /verif/tools/demokit/* $d/; fi; cp /tmp/demo/* $d/
python3 - "$3" "$4" "$5" > $d/meta.json <<'P'
import json,sys; print(json.dumps(dict(property=sys.argv[1], needs=sys.argv[2], what_it_breaks=sys.argv[3]), indent=1))
P
cd $s; timeout 300 bash $d/demo.sh > /tmp/demo.clean 2>&1 && echo "clean: ok" || { echo "clean: FAIL"; tail -5 /tmp/demo.clean; }
git apply $d/patch.diff; if timeout 300 bash $d/demo.sh > /tmp/demo.bad 2>&1; then echo "patched: NOT DETECTED BY DEMO"; else echo "patched: fails as it should"; fi; tail -3 /tmp/demo.bad; git checkout -q -- .
