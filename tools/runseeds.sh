#!/bin/bash
# applies each planted bug to /repo in turn, runs its property's quick check, undoes it
cd /verif
for d in ${@:-seeded/*}; do
  id=$(basename $d); p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  out=$(VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep VIOLATION) :: $(echo "$out" | grep -m1 'failed obligation' | cut -c1-200)"
done
