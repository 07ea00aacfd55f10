#!/bin/bash
# Run the check of each planted bug against it: tryseeded.sh [ID...]   (prints ID property rc seconds)
cd /verif
ids=("$@"); [ ${#ids[@]} -gt 0 ] || ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  s=$(date +%s)
  timeout 900 ./check.sh $p quick > /tmp/seeded-$id.log 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $p rc=$rc $(( $(date +%s) - s ))s viol=$(grep -c "^VIOLATION property=$p " /tmp/seeded-$id.log)"
done
