#!/bin/bash
# seedtry.sh ID...: applies each seeded patch to /repo, runs its demo and its property's quick check, undoes the patch.
for id in "$@"; do
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
(cd /repo && bash $d/demo.sh >/tmp/demo0.log 2>&1); r0=$?
git -C /repo apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
(cd /repo && bash /opt/vp/build.sh >/tmp/b.log 2>&1); b=$?
(cd /repo && bash $d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
if [ -z "$NOCHECK" ]; then s=$(date +%s); bash /verif/check.sh $prop quick >/tmp/chk.log 2>&1; c=$?; e=$(( $(date +%s) - s )); fi
git -C /repo checkout -- .
echo "$id: prop=$prop demo-clean=$r0 build=$b demo-patched=$r1 check=$c (${e}s) $(grep -o 'VIOLATION property=[A-Z0-9]*' /tmp/chk.log | head -1)"
done
