#!/usr/bin/env python3
"""Plant a bug: plant.py FILE.py...   Each file defines ID, PROPERTY, NEEDS, BREAKS,
EDITS = [(path, old, new)], DEMO (main.rs text).  The patch is made and confirmed in a
scratch copy of /repo: it must build, pass the stable tests, change only original
lines, and the demonstration must pass without it and fail with it."""
import sys, os, subprocess, json, shutil, tempfile
SEED = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
BASE = "75b9c77"
DEMO_SH = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: behaves; nonzero: broken.
here="$(cd "$(dirname "$0")" && pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
libyaml-safer = { path = "$PWD" }
[workspace]
EOF
[ -f "$PWD/Cargo.lock" ] && true
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline --quiet --manifest-path "$d/Cargo.toml"
'''
def run(cmd, cwd=None, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def plant(f):
    ns = {}
    exec(open(f).read(), ns)
    i = ns["ID"]
    out = os.path.join(SEED, i)
    tmp = tempfile.mkdtemp(prefix="plant")
    try:
        w = os.path.join(tmp, "repo")
        shutil.copytree("/repo", w, symlinks=True, ignore=shutil.ignore_patterns("target"))
        for path, old, new in ns["EDITS"]:
            p = os.path.join(w, path)
            s = open(p).read()
            n = s.count(old)
            if n != 1:
                return f"{i}: edit matches {n} times: {old!r}"
            k = s[:s.index(old)].count("\n") + 1
            e = k + old.rstrip("\n").count("\n")
            b = run(["git", "blame", "-s", "-l", "-L", f"{k},{e}", path], cwd=w).stdout
            o, nn = old.rstrip("\n").split("\n"), new.rstrip("\n").split("\n")
            for bl, ol in zip(b.splitlines(), o):
                if not bl.lstrip("^").startswith(BASE) and ol not in nn:
                    return f"{i}: line is not original: {bl}"
            open(p, "w").write(s.replace(old, new))
        os.makedirs(out, exist_ok=True)
        diff = run(["git", "diff"], cwd=w).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.rs"), "w").write(ns["DEMO"].lstrip("\n"))
        with open(os.path.join(out, "demo.sh"), "w") as g: g.write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        d = os.path.join(tmp, "seed"); shutil.copytree(out, d)
        a = run(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
        if a.returncode != 0:
            return f"{i}: demo fails on the unchanged tree:\n" + a.stdout[-900:]
        # As /opt/vp/prep.sh does: without the dev-dependency that downloads its data.
        x = os.path.join(tmp, "shadow"); shutil.copytree(w, x, symlinks=True, ignore=shutil.ignore_patterns(".git"))
        shutil.rmtree(os.path.join(x, "tests", "data"), ignore_errors=True)
        for f in os.listdir(os.path.join(x, "tests")):
            q = os.path.join(x, "tests", f)
            if f.endswith(".rs") and "unsafe_libyaml_test_suite" in open(q).read(): os.remove(q)
        c = os.path.join(x, "Cargo.toml")
        k = [l for l in open(c) if not l.startswith("unsafe-libyaml-test-suite")]
        open(c, "w").writelines(k)
        t = run(["cargo", "test", "--offline", "--quiet", "--lib", "--tests", "--bins", "--target-dir", "/tmp/plant-target"], cwd=x)
        if t.returncode != 0:
            return f"{i}: build/tests fail with patch:\n" + t.stdout[-900:]
        b = run(["bash", os.path.join(d, "demo.sh")], cwd=w)
        if b.returncode == 0:
            return f"{i}: demo passes with the patch"
        if "error[" in b.stdout or "could not compile" in b.stdout:
            return f"{i}: demo does not compile with patch " + b.stdout[-1500:]
        return f"{i}: ok   ({b.stdout.strip().splitlines()[-1][:150] if b.stdout.strip() else ''})"
    finally:
        shutil.rmtree(tmp)
for f in sys.argv[1:]:
    r = plant(f)
    print(r, flush=True)
