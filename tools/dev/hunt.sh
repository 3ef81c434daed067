#!/bin/bash
# Development only: hunt.sh [ids...]: applies each planted bug to /repo, runs its property's quick check (or CHECKS=...), undoes it
cd /verif/seeded
for id in ${@:-*}; do
  [ -f $id/patch.diff ] || continue
  p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); out=$(timeout 900 bash /verif/tools/check.sh $c quick 2>&1); rc=$?
    echo "$id $c rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep "^$c quick" | cut -c1-120)"
  done
  git -C /repo checkout -q -- .
done
