#!/bin/bash
# runs the quick check of each planted bug's property (or the checks named in CHECKS) against it: run.sh [ID ...]
cd /verif || exit 1
trap 'git -C /repo checkout -q -- .' EXIT
for id in ${@:-$(ls seeded)}; do
  prop=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for c in ${CHECKS:-$prop}; do
    s=$SECONDS
    VERIF_TIER=quick VERIF_SEED=1 timeout 900 ./check.sh $c > /tmp/run-$id-$c.log 2>&1; rc=$?
    if [ $rc -eq 1 ] && grep -q "^VIOLATION property=$c " /tmp/run-$id-$c.log; then r=caught; else r="MISSED rc=$rc"; fi
    printf '%-30s %s %s (%ds)\n' $id $c "$r" $((SECONDS-s))
  done
  git -C /repo checkout -q -- .
done
