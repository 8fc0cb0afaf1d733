#!/bin/bash
# seedtest.sh ID... : does the check of its property catch planted bug ID? (scratch clone /tmp/seed, build /tmp/seedbuild)
for id in "$@"; do
  git -C /tmp/seed checkout -q -- . ; git -C /tmp/seed pull -q 2>/dev/null
  git -C /tmp/seed apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp /verif/evidence/$P.json /tmp/sd/ev.$P 2>/dev/null
  VF_REPO=/tmp/seed VF_BUILD=/tmp/seedbuild timeout 900 python3 /verif/check.py $P > /tmp/sd/check.$id 2>&1; rc=$?
  cp /tmp/sd/ev.$P /verif/evidence/$P.json 2>/dev/null
  echo "$id ($P): rc $rc  $(grep -c '^VIOLATION' /tmp/sd/check.$id) violations; $(grep -A2 -m1 '^VIOLATION' /tmp/sd/check.$id | tail -2 | tr '\n' ' ' | cut -c1-260)"
  git -C /tmp/seed checkout -q -- .
done
