#!/bin/bash
# development: run every check, print outcome and time.  all.sh [seed] [tier]
cd "$(dirname "$0")/.." || exit 1
export VERIF_SEED=${1:-1} VERIF_TIER=${2:-quick}
for i in $(seq -w 1 40); do p=C$i; grep -q "\"id\": \"$p\"" properties.jsonl || continue
 s=$(date +%s); o=$(python3 check.py $p 2>&1); r=$?; echo "$p rc=$r $(( $(date +%s)-s ))s $(echo "$o" | grep -v KNOWN | tail -1 | cut -c1-200)"; done
