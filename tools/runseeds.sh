#!/bin/bash
# runseeds.sh [id...]: applies each planted bug to /repo, runs its property's quick check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d APPLY FAILED"; continue; }
  s=$(date +%s); o=$(./check $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $((e-s))s $(echo "$o" | grep -m1 VIOLATION)"
done
