#!/bin/sh
# Runs every check of the manifest (tier from VERIF_TIER) and prints one line for each.
cd "$(dirname "$0")/.." || exit 2
for id in ${*:-$(python3 -c "import json; print(' '.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))")}; do
  s=$(date +%s)
  ./check.sh "$id" >"/tmp/check.$id" 2>&1
  rc=$?
  echo "$id rc=$rc $(( $(date +%s) - s ))s $(grep -E 'VIOLATION|KNOWN|held' "/tmp/check.$id" | tail -1)"
done
