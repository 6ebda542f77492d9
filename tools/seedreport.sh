#!/bin/bash
# seedreport.sh [ID...]: which obligations and which concrete cases catch each planted bug
[ $# -gt 0 ] || set -- $(ls /verif/seeded)
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
  bash /verif/check.sh $p > /tmp/sr.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "== $id $p rc=$rc $(grep -a VIOLATION /tmp/sr.out | tail -1)"
  grep -a "FAIL\|failed\|ERROR" /tmp/sr.out /verif/replay/$p.txt | cut -c1-220 | sort -u | head -8
done
