#!/bin/bash
# usage: trybugs.sh [seed-id...]; applies each seed to /repo, runs its property's check, undoes it
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d: does not apply"; continue; }
  out=$(./check $p 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$d: $p rc=$rc $(echo "$out" | grep -c '^VIOLATION') $(echo "$out" | grep -v KNOWN | head -2 | cut -c1-250)"
done
