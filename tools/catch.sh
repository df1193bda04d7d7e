#!/bin/bash
# catch.sh ID... : apply each planted bug to /repo, run its property's quick check, undo.
cd "$(dirname "$0")/.."
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$(date +%s); timeout 900 python3 driver.py $p quick >/tmp/catch.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 -A1 VIOLATION /tmp/catch.log | tr '\n' ' ' | cut -c1-300)"
  [ $rc = 1 ] || tail -3 /tmp/catch.log | cut -c1-400
done
