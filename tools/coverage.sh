#!/bin/bash
# coverage.sh [SECONDS] [CHECK...]: what of /repo/src the checks reach. Lists the lines and the branch
# directions that nothing reached (the union over all instantiations of generic code).
S=${1:-5}; shift
D=$(mktemp -d /tmp/cov-XXXXXX)
LB=$(echo /root/.rustup/toolchains/nightly-*/lib/rustlib/*/bin)
mkdir -p $D/vd && cp /verif/known_findings.txt $D/vd/
export LLVM_PROFILE_FILE=$D/p-%p-%m.profraw
(cd /verif/harness && RUSTFLAGS="-C instrument-coverage -Zcoverage-options=branch" CARGO_TARGET_DIR=/tmp/cov-target cargo +nightly build --release --offline --quiet 2>/dev/null)
for c in ${@:-01 02 03 04 05 06 07 08 09 10 11 12 13 14 15 16 17 18 19 20 23 24 25 26 27 30}; do
    VERIF_DIR=$D/vd VMON_SECS=$S timeout 600 /tmp/cov-target/release/vmon check C$c 2>&1 | tail -1 | cut -c1-120
    $LB/llvm-profdata merge -sparse $D/*.profraw $(ls $D/all.profdata 2>/dev/null) -o $D/new && mv $D/new $D/all.profdata
    rm -f $D/*.profraw
done
$LB/llvm-cov show /tmp/cov-target/release/vmon -instr-profile=$D/all.profdata -show-instantiations=false --show-branches=count /repo/src/*.rs 2>/dev/null > $D/show.txt
python3 - $D/show.txt <<'P'
import re,sys,collections
f=''; last={}; br=collections.OrderedDict(); text={}
num=lambda s: float(s.rstrip('kMG'))*{'k':1e3,'M':1e6,'G':1e9}.get(s[-1],1)
for l in open(sys.argv[1],errors='replace'):
    m=re.match(r'^(/repo\S+):$',l)
    if m: f=m.group(1).split('/')[-1]; continue
    m=re.match(r'^\s*(\d+)\|\s*([\d.kMG]*)\|(.*)$',l)
    if m:
        n=int(m.group(1)); text[f,n]=m.group(3).strip()
        if m.group(2): last[f,n]=max(last.get((f,n),0),num(m.group(2)))
        continue
    m=re.search(r'Branch \((\d+):(\d+)\): \[True: ([\d.kMG]+), False: ([\d.kMG]+)\]',l)
    if m:
        k=(f,int(m.group(1)),int(m.group(2))); a=br.setdefault(k,[0,0])
        a[0]=max(a[0],num(m.group(3))); a[1]=max(a[1],num(m.group(4)))
print('lines not reached:')
for (f,n),c in sorted(last.items()):
    if c==0 and text[f,n] not in ('}',')?;','))','});'): print(f' {f}:{n}: {text[f,n][:110]}')
print('branches taken one way only:')
for (f,n,c),(t,e) in sorted(br.items()):
    if (t==0)!=(e==0): print(f' {f}:{n}:{c} never {"true" if t==0 else "false"}: {text.get((f,n),"")[:100]}')
P
rm -rf $D
