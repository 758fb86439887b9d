#!/bin/bash
# Applies planted bugs to /repo one after another, runs the check of their
# property (or the given ones) and undoes them: catch.sh [id...]
cd "$(dirname "$0")/.." || exit 2
ids=${*:-$(ls seeded)}
for id in $ids; do
  pid=$(python3 -c "import json,sys; print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  out=$(timeout 900 ./run.py "${CHECKS:-$pid}" 2>&1); code=$?
  git -C /repo checkout -q -- .
  echo "$id $pid exit=$code $(echo "$out" | grep -m1 '^property')"
done
