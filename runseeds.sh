#!/bin/bash
# runs the check of a planted bug's property against it: runseeds.sh [id...]; /repo is restored after each
cd /verif || exit 2
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json,sys; print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s)
  VERIF_TIER=${TIER:-quick} VERIF_SEED=1 timeout 900 python3 check.py $p >/tmp/rs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  if [ $rc = 1 ] && grep -q "^VIOLATION property=$p " /tmp/rs.out; then v=caught; else v=MISSED; fi
  echo "$id $p $v rc=$rc $(( $(date +%s) - s ))s $(grep -o '"why": "[^"]*' /tmp/rs.out | head -1 | cut -c1-90)"
done
