#!/bin/bash
# tools/seeds.sh [ID..]: run each planted bug's own check with the bug applied.
# (development aid; works on /repo and restores it)
cd /verif
for d in seeded/${1:-*}/; do
  id=$(basename $d)
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $PWD/$d/patch.diff || { echo "$id APPLY FAILED"; continue; }
  s=$(date +%s)
  out=$(./check.sh $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E 'VIOLATION|failed obligation' | tr '\n' ' ' | cut -c1-300)"
done
