#!/bin/bash
# all.sh [tier] [ids...]: run checks one after another, print one line each
cd "$(dirname "$0")/.." || exit 2
tier=${1:-quick}; shift
for p in ${@:-$(seq -f 'C%02g' 1 21)}; do
  s=$(date +%s); out=$(./run check $p $tier 2>&1); rc=$?
  echo "$p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v KNOWN-FINDING | tail -4 | cut -c1-400)"
done
