#!/bin/bash
# catch.sh BUG [CHECK...]: run the checks (default: the bug's property) on a scratch copy of
# /repo with a planted bug applied, with the working tree of /verif.  One line per check.
# catch.sh ALL runs every planted bug against its own property's check.
V="$(cd "$(dirname "$0")/.." && pwd)"
if [ "$1" = ALL ]; then for b in $(ls "$V/seeded"); do "$0" "$b"; done; exit; fi
bug=$1; shift
w=/tmp/catch-scratch
mkdir -p $w/verif $w/repo
rsync -a --delete --exclude target --exclude .git /repo/ $w/repo/ 2>/dev/null || { find $w/repo -mindepth 1 -delete; cp -a /repo/. $w/repo/; }
for d in harness vendor tools cli mem check.sh env.sh known_findings.txt MANIFEST.json properties.jsonl; do
    [ -e "$V/$d" ] && cp -a "$V/$d" $w/verif/
done
grep -rlE '"/repo"|/repo/' $w/verif/harness $w/verif/cli $w/verif/mem $w/verif/check.sh $w/verif/env.sh --include=Cargo.toml --include=*.sh --include=*.rs 2>/dev/null | xargs -r sed -i "s#/repo\b#$w/repo#g"
prop=$(python3 -c "import json;print(json.load(open('$V/seeded/$bug/meta.json'))['property'])")
checks="${*:-$prop}"
git -C $w/repo init -q 2>/dev/null
(cd $w/repo && patch -p1 -s < "$V/seeded/$bug/patch.diff") || exit 2
for c in $checks; do
    s=$(date +%s)
    out=$(cd $w/verif && VERIF_SEED=${VERIF_SEED:-1} timeout 900 bash check.sh "$c" 2>/dev/null); rc=$?
    v=$(grep -m1 '^VIOLATION' <<<"$out" | cut -c1-60)
    echo "$bug $c rc=$rc $v $(( $(date +%s) - s ))s"
done
