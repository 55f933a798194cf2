#!/bin/bash
# catch.sh [seed ids]: runs each planted bug against the check of its property.
cd /verif
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$s/patch.diff || { echo "$s: does not apply"; continue; }
  out=$(python3 check.py $p --tier quick 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$s $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') violation lines; $(echo "$out" | grep '^VIOLATION' | head -1 | grep -q no-failing && echo no-input || echo replayed); $(echo "$out" | tail -1)"
  echo "$out" | grep -E "^(UNDECIDED|NOTE)" | cut -c1-200
done
