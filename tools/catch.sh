#!/bin/bash
# catch.sh <seeded id>...: applies each planted change to /repo, runs its property's check, undoes it
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && timeout 900 ./check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id: exit $rc: $(echo "$out" | grep VIOLATION)"; echo "$out" | grep -E "^  FAIL|^  FAILED" | head -3 | cut -c1-250
done
