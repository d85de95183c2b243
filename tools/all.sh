#!/bin/bash
# all.sh [SEED]: build and run every check; print only what is not quiet.
cd "$(dirname "$0")/.." || exit 2
for c in $(python3 -c "import json;print(*[x['property'] for x in json.load(open('MANIFEST.json'))['checks']])"); do
    s=$(date +%s); out=$(VERIF_SEED=${1:-1} timeout 900 bash check.sh "$c" 2>&1); rc=$?
    [ $rc = 0 ] && echo -n "$c ok $(( $(date +%s) - s ))s; " || { echo; echo "$c rc=$rc"; cut -c1-400 <<<"$out" | head -6; }
done; echo
