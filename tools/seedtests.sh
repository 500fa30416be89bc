#!/bin/bash
# seedtests.sh ID...: runs the stable tests with each patch in /repo and reports the ones that fail.
for id in "$@"; do
git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
bash /opt/vp/test.sh /tmp/seedtests.json >/dev/null 2>&1
git -C /repo checkout -- .
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seedtests.json'))
def names(x): return set(x) if isinstance(x,list) else set(x.keys()) if isinstance(x,dict) else set()
base=None
for k in ('stable','pass','passed','tests'):
    if k in b: base=names(b[k]); break
p=None
for k in ('pass','passed'):
    if k in r: p=names(r[k]); break
print(sys.argv[1], 'stable', len(base), 'failing now:', sorted(base-p)[:5])
P
done
