#!/bin/bash
# apply each planted bug to /repo, run the check of its property, undo
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s does not apply"; continue; }
  t0=$(date +%s)
  timeout 900 python3 check.py $p > /tmp/seed_$s.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(( $(date +%s)-t0 ))s $(grep -c VIOLATION /tmp/seed_$s.log) $(grep counterexample: /tmp/seed_$s.log | head -1 | cut -c1-160)"
done
