#!/bin/bash
# development helper: runs the check of each planted bug with the bug applied to /repo, which is restored afterwards
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  VERIF_SEED=1 VERIF_TIER=quick ./check.py $p >/tmp/sc.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(grep -m2 VIOLATION /tmp/sc.out)"
done
