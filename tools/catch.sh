#!/bin/bash
# catch.sh ID...: runs the property's check against each planted bug in /repo
cd /verif
for id in "$@"; do
S=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
git -C /repo apply $S/patch.diff || { echo "$id does not apply"; continue; }
timeout 900 python3 check.py $p > /tmp/catch.$id 2>&1; r=$?
git -C /repo checkout -q -- .
echo "$id $p rc=$r $(grep -o 'VIOLATION.*' /tmp/catch.$id) | $(grep -E 'obligation not|undecided:' /tmp/catch.$id | head -2 | cut -c1-150 | tr '\n' ';')"
done
