#!/bin/bash
# catch.sh [seed...]: applies each planted change to /repo in turn, runs the check of its property, undoes it.
# ALL=1 runs every check against it.
cd "$(dirname "$0")/.."
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
for s in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  ids=$p; [ -n "$ALL" ] && ids=$(seq -f 'C%02g' 1 24)
  for i in $ids; do
    t=$(date +%s.%N)
    o=$(VERIF_SEED=1 VERIF_TIER=quick ./check.sh $i 2>&1); r=$?
    printf '%s %s rc=%s %.1fs %s\n' $s $i $r $(echo "$(date +%s.%N)-$t" | bc) "$(echo "$o" | grep -E '^scenario' | head -1 | cut -c1-170)"
  done
  git -C /repo checkout -q -- .
done
