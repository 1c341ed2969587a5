#!/bin/bash
# tryseed.sh ID...: builds each planted bug in the scratch copy /tmp/seedw, runs the demo before/after and the checks given by its property
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && python3-vt -m amv.run $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop rc=$rc $(echo "$out" | grep -c VIOLATION) $(echo "$out" | grep VIOLATION | grep -o 'no-failing-input-found')" 
done
