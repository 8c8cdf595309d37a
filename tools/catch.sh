#!/bin/bash
# catch.sh ID...: runs the check of each planted bug's property (or PROP=... instead) against the bug, in /repo, and undoes it
for id in "$@"; do
  P=${PROP:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")}
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; continue; }
  python3 /verif/vf/check.py $P > /tmp/catch.out 2>&1; rc=$?
  git -C /repo checkout -- .
  echo "$id $P rc=$rc $(grep -m1 -A1 '^  \[' /tmp/catch.out | tr -s ' \n' ' ' | cut -c1-180)"
done
