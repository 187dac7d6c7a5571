#!/bin/bash
# tools/hit.sh SEED... : apply each planted bug to /repo, run the check of its property, undo
cd "$(dirname "$0")/.."
for s in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$s/patch.diff" || { echo "$s does not apply"; continue; }
  t0=$(date +%s); timeout 900 python3 run.py $p > /tmp/hit.log 2>&1; r=$?; git -C /repo checkout -q -- .
  echo "$s $p rc=$r $(( $(date +%s) - t0 ))s $(grep -c '^VIOLATION' /tmp/hit.log) $(grep -m1 -A1 '^VIOLATION' /tmp/hit.log | tr '\n' ' ' | cut -c1-160)"
done
