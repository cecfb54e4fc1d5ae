#!/bin/bash
# catch.sh ID...: run the registered quick check against each planted change (in /repo, undone afterwards)
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: no apply"; continue; }
  s=$(date +%s); out=$(cd /verif && timeout 900 python3 check.py $p quick 2>&1); rc=$?; e=$(date +%s)
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((e-s))s $(echo "$out" | grep VIOLATION | head -2 | cut -c1-200)"
done
