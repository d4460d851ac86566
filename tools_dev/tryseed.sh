#!/bin/bash
# tryseed.sh [ID ...]: run the check of each planted bug's property against a copy with the bug.
cd /verif
for id in ${@:-$(ls seeded)}; do
  rm -rf "/tmp/seed-$id"; git clone -q /repo "/tmp/seed-$id"
  git -C "/tmp/seed-$id" apply "/verif/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  BBV_REPO="/tmp/seed-$id" timeout 900 ./check "$p" > "/tmp/seed-$id.out" 2>&1; rc=$?
  echo "$id $p rc=$rc $(grep -c ^VIOLATION /tmp/seed-$id.out) $(grep -v '^VIOL\|^KNOWN' /tmp/seed-$id.out | tail -1 | cut -c1-200)"
  rm -rf "/tmp/seed-$id"
done
