#!/bin/bash
# try_seeded.sh [ids]: apply each planted change to /repo, run the check of its property, undo it
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  s=$(date +%s)
  o=$(./check.sh "$p" 2>&1); rc=$?
  git -C /repo checkout -- .
  echo "$d $p rc=$rc $(($(date +%s)-s))s $(echo "$o" | grep -A1 VIOLATION | head -2 | tr '\n' ' ' | cut -c1-260)"
done
