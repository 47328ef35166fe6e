#!/bin/bash
# runs the checks given (default: all claimed) and prints exit code, time and the last lines
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c 'import json;print(*sorted(json.load(open("tools/claims.json"))["claimed"]))')}; do
 s=$(date +%s); o=$(VERIF_SEED=1 VERIF_TIER=quick python3-vt check.py $p 2>&1); r=$?; echo "$p rc=$r $(( $(date +%s)-s ))s"; [ $r = 0 ] || echo "$o" | tail -5
done
