#!/usr/bin/env python3
"""try.py FILE [SUBSTRING]: run checks on small edits.  FILE defines TRY, a list of
(label, [(file, old, new), ...], "C01 C02 ...").  Works on scratch copies; prints one line per check."""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
w = os.environ.get("TRY_DIR", "/tmp/try-scratch")
for d in ("verif", "repo"): os.makedirs(f"{w}/{d}", exist_ok=True)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace")
for d in "harness vendor tools cli mem check.sh env.sh known_findings.txt MANIFEST.json properties.jsonl".split():
    sh(f"rm -rf {w}/verif/{d}.old; cp -a {V}/{d} {w}/verif/")
sh(f"grep -rlE '\"/repo\"|/repo/' {w}/verif/harness {w}/verif/cli {w}/verif/mem {w}/verif/check.sh {w}/verif/env.sh --include=Cargo.toml --include=*.sh --include=*.rs | xargs -r sed -i 's#/repo\\b#{w}/repo#g'")
for label, edits, checks in ns["TRY"]:
    if len(sys.argv) > 2 and sys.argv[2] not in label: continue
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {w}/repo/ || (find {w}/repo -mindepth 1 -delete; cp -a /repo/. {w}/repo/; rm -rf {w}/repo/.git)")
    ok = True
    for f, old, new in edits:
        p = f"{w}/repo/{f}"; s = open(p).read()
        if s.count(old) < 1: print(f"{label}: no match in {f}: {old[:60]!r}"); ok = False; break
        open(p, "w").write(s.replace(old, new, 1))
    if not ok: continue
    if os.environ.get("TRY_TESTS", "1") == "1":
        t = sh(f"cd {w}/repo && CARGO_TARGET_DIR={w}/tt timeout 300 cargo test --offline --lib 2>&1 | tail -30")
        if "error" in t.stdout and "could not compile" in t.stdout: print(f"{label}: does not compile: {[l for l in t.stdout.splitlines() if l.startswith('error')][:2]}"); continue
        if "FAILED" in t.stdout: print(f"{label}: TESTS FAIL", [l for l in t.stdout.splitlines() if "FAILED" in l][:4])
    for c in checks.split():
        import time; s = time.time()
        r = sh(f"cd {w}/verif && timeout 900 bash check.sh {c}")
        v = [l for l in r.stdout.splitlines() if l.startswith("case=")]
        print(f"{label} {c} rc={r.returncode} {int(time.time()-s)}s {v[0][:160] if v else ''}", flush=True)
