#!/bin/bash
# runseed.sh ID...: run the check of each planted bug's property on /repo with the bug applied
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
  s=$(date +%s)
  bash /verif/check.sh $p > /tmp/rs.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s: $(grep -a VIOLATION /tmp/rs.out | tail -1)"
done
