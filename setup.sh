#!/bin/bash
# builds the MIR driver and warms the dependency cache
cd "$(dirname "$0")" || exit 1
d=$(mktemp -d)
bash harness/build.sh "$d" >"$d/log" 2>&1 || { tail -30 "$d/log"; echo "warm-up build failed"; }
rm -rf "$d"
exit 0
