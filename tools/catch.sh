#!/bin/bash
# Run the check of the planted bugs' property with each of them applied. usage: catch.sh ID...
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py $p quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  echo "$id ($p): rc=$rc $(echo "$out" | grep -c '^VIOLATION') violations; $(echo "$out" | grep -v '^  \|^VIOL\|^KNOWN' | head -1 | cut -c1-120); $(echo "$out" | grep '^  input' | head -1 | cut -c1-120)"
done
