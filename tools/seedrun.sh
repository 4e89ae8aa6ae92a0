#!/bin/bash
# apply each planted change to /repo, run its property's check, undo.   usage: seedrun.sh [id...]
cd /verif
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$d/patch.diff || { echo "$d does not apply"; continue; }
  out=$(timeout 900 python3 run.py $p 2>/tmp/seedrun.err); rc=$?
  git -C /repo checkout -q -- .
  echo "$d $p rc=$rc $(echo "$out" | tail -1)"
done
git -C /repo status --short
