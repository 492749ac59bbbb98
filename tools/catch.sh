#!/bin/bash
# tools/catch.sh ID...: apply a planted bug to /repo, run its property's check, undo (development aid)
cd "$(dirname "$0")/.."
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$i/meta.json'))['property'])")
  git -C /repo apply "$PWD/seeded/$i/patch.diff" || { echo "$i does not apply"; continue; }
  for q in $p $ALSO; do
  python3 check.py $q quick > /tmp/catch.$i.txt 2>&1; rc=$?
  echo "$i $q rc=$rc $(grep -c ^VIOLATION /tmp/catch.$i.txt) violations, $(grep -c ^UNDECIDED /tmp/catch.$i.txt) undecided"; grep -m${N:-2} VIOLATION -A2 /tmp/catch.$i.txt | cut -c1-220
  done
  git -C /repo checkout -q -- .
done
