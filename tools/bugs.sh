#!/bin/bash
# usage: bugs.sh [ID...] : runs the quick check of each seeded bug's property with the bug in /repo
cd /verif
for id in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  s=$(date +%s); ./check.sh $p quick >/tmp/bug.$id.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -c '^VIOLATION' /tmp/bug.$id.log) $(grep -A1 -m1 '^VIOLATION' /tmp/bug.$id.log | tail -1 | cut -c1-150)"
done
