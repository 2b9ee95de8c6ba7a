#!/bin/bash
# trybug.sh ID...: run the property's check with the planted bug applied to /repo
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$i does not apply"; continue; }
  (cd /verif && python3 check.py $p > /tmp/vx/try.$i.log 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(grep -m1 VIOLATION /tmp/vx/try.$i.log) $(grep -m1 -E 'FAIL|failed obl' /tmp/vx/try.$i.log | cut -c1-200)"
done
