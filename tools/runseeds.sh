#!/bin/bash
# applies each seeded change to a scratch clone and runs its property's check there
rm -rf /tmp/seedrun; git clone -q ${SEEDSRC:-/repo} /tmp/seedrun
for d in /verif/seeded/${1:-*}/; do
  id=$(basename $d); prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /tmp/seedrun apply $d/patch.diff || { echo "$id PATCH FAILS"; continue; }
  s=$(date +%s); VP_REPO=/tmp/seedrun timeout 900 /verif/bin/check $prop --nocover > /tmp/seed_$id.log 2>&1; rc=$?
  echo "$id $prop rc=$rc $(( $(date +%s)-s ))s $(grep VIOLATION /tmp/seed_$id.log | tail -1 | cut -c1-160)"
  git -C /tmp/seedrun checkout -q -- .
done
rm -rf /tmp/seedrun
