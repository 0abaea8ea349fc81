#!/bin/bash
# Runs the quick check of the property of each planted bug with the bug applied: seedrun.sh ID...
for i in "$@"; do
  d=/verif/seeded/$i; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$i: does not apply"; continue; }
  s=$(date +%s); VERIF_SEED=1 VERIF_TIER=quick python3 /verif/check.py $p quick > /tmp/seedrun.$i.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$i: $p rc=$rc $(( $(date +%s) - s ))s $(grep -m1 -c VIOLATION /tmp/seedrun.$i.log)"
done
