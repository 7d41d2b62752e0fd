#!/bin/bash
# chkseed.sh [ids...]: run the check of each planted bug's property with the bug in /repo's tree, and undo it.
cd /verif/seeded || exit 2
for i in ${*:-$(ls)}; do
  p=$(python3 -c "import json;print(json.load(open('$i/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; continue; }
  s=$(date +%s); o=$(cd /verif && ./run.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$i $p rc=$rc $(( $(date +%s)-s ))s $(echo "$o" | grep -m1 -B3 "^VIOLATION" | grep -v VIOL | head -2 | cut -c1-260 | tr '\n' ' ')"
done
