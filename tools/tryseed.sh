#!/bin/bash
# Run the check of its property against each planted bug (not a registered
# check), in a scratch copy. usage: tryseed.sh [ID...]
# Applies to /repo and undoes it: nothing else may use /repo meanwhile.
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d DOES NOT APPLY"; continue; }
  o=$(bash check.sh $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$o" | grep -a VIOLATION | head -1 | cut -c1-150)"
done
