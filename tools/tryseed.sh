#!/bin/bash
# tryseed.sh ID...: does the planted bug build, pass the tests, and does its demo tell? (applies to /repo and undoes it)
for id in "$@"; do
 cd /repo; d=/verif/seeded/$id
 bash $d/demo.sh >/dev/null 2>&1; c=$?
 git apply $d/patch.diff || { echo "$id: does not apply"; continue; }
 bash /opt/vp/test.sh /tmp/ts.json >/tmp/ts.log 2>&1
 bash $d/demo.sh >/tmp/demo.log 2>&1; p=$?
 git checkout -q -- .
 python3 - "$id" $c $p <<'P'
import json,sys
o=json.load(open('/tmp/ts.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=set(b.get('passed') or b.get('stable') or b)
miss=sorted(base-set(o['passed']))
print(sys.argv[1], "demo clean", sys.argv[2], "patched", sys.argv[3], "tests failing:", len(miss), miss[:4])
P
done
