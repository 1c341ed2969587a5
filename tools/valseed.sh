#!/bin/bash
# valseed.sh ID...: applies each planted bug to /repo, runs build+tests+demo+its property's check, undoes it
for id in "$@"; do
  d=/verif/seeded/$id
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  bash /opt/vp/test.sh /tmp/vs.json >/dev/null 2>&1
  t=$(python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/vs.json'))
w=b.get('passed') or b.get('stable') or b.get('tests')
print(len([x for x in w if x not in set(r['passed'])]), 'lost')")
  (cd /repo && bash $d/demo.sh >/tmp/vs.demo 2>&1); dr=$?
  out=$(cd /verif && python3-vt -m amv.run $prop 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $prop tests: $t demo=$dr check rc=$rc v=$(echo "$out" | grep -c VIOLATION) nfi=$(echo "$out" | grep -c 'no-failing-input-found')"
done
bash /opt/vp/build.sh >/dev/null 2>&1
