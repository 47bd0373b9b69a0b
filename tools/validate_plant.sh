#!/bin/bash
# validate_plant.sh ID...: apply each planted bug to /repo, build, run the stable
# tests and its demo, run its check, undo.  Prints one line per bug.
for id; do
    d=/verif/seeded/$id
    prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
    log=/tmp/plant-$id.log
    git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
    bash /opt/vp/test.sh /tmp/plant-$id.json > "$log" 2>&1
    passed=$(python3 -c "
import json
o=json.load(open('/tmp/plant-$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))
s=json.dumps(b)
print(len(o['passed']), len(o['failed']))")
    (cd /repo && bash "$d/demo.sh") >> "$log" 2>&1; demo=$?
    (cd /verif && timeout 900 python3 check.py "${CHECK:-$prop}" quick) > /tmp/plant-$id.check 2>&1; rc=$?
    v=$(grep -m1 '^VIOLATION' /tmp/plant-$id.check | cut -c1-80); cls=$(grep -m1 -oE 'class[ =:]*[a-z-]+' /tmp/plant-$id.check)
    echo "$id $prop: tests passed/failed $passed; demo with patch $demo; check ${CHECK:-$prop} exit $rc $v $cls"
    git -C /repo checkout -q -- .
done
