#!/bin/bash
# runs every check (or those named) against HSA_REPO (default /repo); prints id, exit status, seconds and last line
cd "$(dirname "$0")/.."
ids="$*"; [ -z "$ids" ] && ids=$(ls hsa/props | sed -n 's/^\(c[0-9]*\)\.py$/\U\1/p')
for p in $ids; do s=$(date +%s); out=$(timeout 900 ./check $p 2>&1); rc=$?; e=$(date +%s)
 echo "$p rc=$rc $((e-s))s $(echo "$out" | tail -1 | cut -c1-180)"; done
