#!/usr/bin/env python3
"""mutate.py WORKER WORKERS COUNT SEED: one-line mutations of /repo/src in a scratch copy, run against the
checks (short runs) until one notices; the ones nobody notices are written to /tmp/mutants/survivors.txt.
Nothing in /verif depends on this; it is how gaps are looked for."""
import os, random, re, subprocess, sys, json, shutil, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wk, wks, count, seed = map(int, sys.argv[1:5])
only = sys.argv[5] if len(sys.argv) > 5 else None
W = f"/tmp/mutants/w{wk}"
os.makedirs(W, exist_ok=True)
FILES = ["scanner", "parser", "emitter", "document", "reader", "error", "macros", "event", "token", "lib"]
if only == "bin": FILES = ["bin/run-parser-test-suite", "bin/run-emitter-test-suite"]
OPS = [(r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "), (r"\|\| ", "&& "), (r"&& ", "|| "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" \+ 1\b", " + 2"), (r" - 1\b", " - 2"), (r"\+= 1\b", "+= 2"), (r"-= 1\b", "-= 0"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"if !", "if "), (r"\(!", "("), (r"&& !", "&& "), (r"\|\| !", "|| "),
       (r"\bstart_mark\b", "end_mark"), (r"\bend_mark\b", "start_mark"), (r"\bself\.mark\b", "start_mark"), (r"push_back", "push_front"), (r"\.first\(\)", ".last()"), (r"\.last\(\)", ".first()"), (r"continue;", "break;"), (r"break;", "continue;"),
       (r"is_some", "is_none"), (r"is_none", "is_some"), (r"return Ok\(\(\)\);", "")]
def muts():
    out = []
    for f in FILES:
        p = f"src/{f}.rs"
        lines = open(f"/repo/{p}").read().split("\n")
        for n, l in enumerate(lines):
            s = l.strip()
            if s.startswith("mod tests"): break
            if s.startswith("#[cfg(test)]") and f != "lib":
                if n + 1 < len(lines) and "mod" in lines[n + 1]: break
            if not s or s.startswith("//") or s.startswith("#") or s.startswith("use ") or s.startswith("pub use") or s.startswith("///"): continue
            if "assert" in s or "panic!" in s or "unreachable" in s or "with_capacity" in s or "reserve" in s: continue
            for a, b in OPS:
                for m in re.finditer(a, l):
                    out.append((p, n, l[:m.start()] + b + l[m.end():]))
            for m in re.finditer(r"(?<![\w.'])(\d+)(?![\w'])", l):
                if "fn " in l or "#[" in l: continue
                out.append((p, n, l[:m.start()] + str(int(m.group(1)) + 1) + l[m.end():]))
            for m in re.finditer(r"'(\\?[^'\\])'", l):
                out.append((p, n, l[:m.start()] + "'\\u{1}'" + l[m.end():]))
            for m in re.finditer(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9A-Fa-f]{2})'", l):
                x = int(re.sub(r"[^0-9a-fA-F]", "", m.group(1).replace("\\u", "").replace("\\x", "")), 16)
                if x + 1 < 0x110000 and not 0xd800 <= x + 1 < 0xe000: out.append((p, n, l[:m.start()] + "'\\u{%x}'" % (x + 1) + l[m.end():]))
            if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "}", ")", "pub ", "const", "static", "mod ", "extern", "type ")) and s.count("(") == s.count(")"):
                out.append((p, n, ""))
            # Texts, narrow counters, statements twice or the other way round, a condition left out.
            for m in re.finditer(r'"([^"\\]{2,})"', l):
                if "fn " not in l: out.append((p, n, l[:m.end(1) - 1] + l[m.end(1):]))
            for m in re.finditer(r" as (i32|u64|i64|usize)\b", l): out.append((p, n, l[:m.start()] + " as u8" + l[m.start():]))
            for m in re.finditer(r"len_utf8\(\)", l): out.append((p, n, l[:m.start()] + "len_utf8().min(3)" + l[m.end():]))
            if s.endswith(";") and not s.startswith(("let ", "return", "break", "continue", "use ", "pub ", "const", "mod ", "type ")) and s.count("(") == s.count(")"):
                out.append((p, n, l + " " + s))
                if n + 1 < len(lines) and lines[n + 1].strip().endswith(";") and lines[n + 1].startswith(l[:len(l) - len(l.lstrip())]) and not lines[n + 1].strip().startswith(("let ", "return")):
                    out.append((p, n, lines[n + 1] + "\n" + l + "\n//SWAP"))
            if re.match(r"\s*(&&|\|\|) [^{}]*$", l) and l.count("(") == l.count(")"): out.append((p, n, ""))
            for m in re.finditer(r"Some\((\w+)\)", l):
                if "=>" not in l and "let " not in l: out.append((p, n, l[:m.start()] + "None" + l[m.end():]))
            for m in re.finditer(r"\.clone\(\)|\.take\(\)", l): out.append((p, n, l[:m.start()] + (".take()" if "clone" in m.group() else ".clone()") + l[m.end():]))
            if re.search(r"cache\((\d+)\)", l):
                m = re.search(r"cache\((\d+)\)", l)
                out.append((p, n, l[:m.start(1)] + str(int(m.group(1)) + 1) + l[m.end(1):]))
                if int(m.group(1)) > 1: out.append((p, n, l[:m.start(1)] + str(int(m.group(1)) - 1) + l[m.end(1):]))
    return out
M = muts()
if only: M = [m for m in M if only in m[0]]
random.Random(seed).shuffle(M)
print(len(M), "mutants possible", flush=True)
M = M[:count]
def sh(c, t=900, env=None):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t, env=e)
        return r.returncode, r.stdout.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        return 99, ""
def prepare():
    sh(f"mkdir -p {W}/verif {W}/repo; rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/ || (find {W}/repo -mindepth 1 -delete; cp -a /repo/. {W}/repo/; find {W}/repo/.git -delete)")
    for d in "harness vendor tools cli mem check.sh env.sh known_findings.txt MANIFEST.json properties.jsonl".split():
        sh(f"cp -a {V}/{d} {W}/verif/")
    sh(f"""grep -rlE '"/repo"|/repo/' {W}/verif/harness {W}/verif/cli {W}/verif/mem {W}/verif/check.sh {W}/verif/env.sh --include=Cargo.toml --include=*.sh --include=*.rs | xargs -r sed -i 's#/repo\\b#{W}/repo#g'""")
    sh(f"sed -i 's/^opt-level = 2/opt-level = 1/; s/^debug = 1/debug = 0/; s/^codegen-units = 16/codegen-units = 64/; s/^incremental = false/incremental = true/' {W}/verif/harness/Cargo.toml")
prepare()
ids = [x["property"] for x in json.load(open(f"{V}/MANIFEST.json"))["checks"]]
first = ["C02", "C13", "C03", "C18", "C10", "C04", "C14", "C05", "C27", "C01"]
order = ["C22"] if only == "bin" else first + ["C11", "C19", "C06", "C23", "C30"]
for k, (p, n, new) in enumerate(M):
    if k % wks != wk: continue
    src = open(f"/repo/{p}").read().split("\n")
    old = src[n]; src[n] = new
    if new.endswith("//SWAP"): src[n + 1] = ""
    open(f"{W}/repo/{p}", "w").write("\n".join(src))
    tag = f"{p}:{n+1}: `{old.strip()}` -> `{new.strip()}`"
    rc, o = sh(f"cd {W}/verif && export VERIF_DIR=$PWD && . ./env.sh && cd harness && cargo build --release --offline --locked --quiet", 300)
    if rc: res = "nobuild"
    else:
        res = "SURVIVED"
        for c in order:
            rc, o = sh(f"cd {W}/verif && VMON_SECS=4 VERIF_SEED=7 timeout 300 bash check.sh {c}", 320)
            if rc == 1: res = "caught " + c; break
            if rc not in (0, 1, 4): res = f"inconclusive {c} rc={rc}"; break
    print(res, "|", tag, flush=True)
    if res.startswith(("SURV", "inc")):
        with open("/tmp/mutants/survivors.txt", "a") as f: f.write(res + " | " + tag + "\n")
    open(f"{W}/repo/{p}", "w").write(open(f"/repo/{p}").read())
