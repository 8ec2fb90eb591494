#!/bin/bash
# try.sh BUG...: applies each planted bug to /repo, runs its property's check, undoes it.
for b in "$@"; do
  P=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$b/meta.json'))['property'])")
  [ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
  git -C /repo apply /verif/seeded/$b/patch.diff || { echo "$b does not apply"; continue; }
  t0=$(date +%s); (cd /verif && bash check.sh $P) > /tmp/try.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$b $P rc=$rc $(( $(date +%s)-t0 ))s $(grep -m1 VIOLATION /tmp/try.out)"
done
