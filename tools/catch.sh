#!/bin/bash
# catch.sh ID...: applies a planted bug to /repo, runs its property's check (and those named in CHECKS), undoes it
cd /verif
for id in "$@"; do
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  for p in ${CHECKS:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}; do
    s=$(date +%s)
    ./run.sh $p quick > /tmp/catch-$id-$p.out 2>&1; rc=$?
    echo "$id $p rc=$rc $(( $(date +%s)-s ))s $(grep -m1 '^VIOLATION' /tmp/catch-$id-$p.out)"
  done
  git -C /repo checkout -q -- .
done
