//! C21: memory stays valid, and is given back.  The shared workload runs natively under a counting
//! allocator, and again under Miri and AddressSanitizer (crate `mem`).
use crate::model::fnv;
use crate::rng::Rng;
use crate::runner::*;
use crate::{alloc, input::*, sut, workload};
use std::path::PathBuf;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Memory;

#[derive(Clone, Copy, PartialEq)]
enum Tool {
    Miri,
    Asan,
}
impl Tool {
    fn name(self) -> &'static str {
        if self == Tool::Miri {
            "miri"
        } else {
            "asan"
        }
    }
}
fn command(tool: Tool) -> Command {
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target"));
    let mut c = Command::new("timeout");
    c.arg(if tier() == Tier::Quick { "300" } else { "600" }).arg("cargo").arg("+nightly").current_dir(verif_dir().join("mem")).env("CARGO_NET_OFFLINE", "true");
    c.env_remove("RUSTC").env_remove("RUSTUP_TOOLCHAIN");
    let t = target.join(tool.name());
    match tool {
        Tool::Miri => {
            c.args(["miri", "run", "--offline", "--locked", "--quiet", "--target-dir"]).arg(t);
            c.env("MIRIFLAGS", "-Zmiri-disable-isolation");
        }
        Tool::Asan => {
            c.args(["run", "--release", "--offline", "--locked", "--quiet", "--target", "x86_64-unknown-linux-gnu", "--target-dir"]).arg(t);
            c.env("RUSTFLAGS", "-Zsanitizer=address").env("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0");
        }
    }
    c.arg("--");
    c
}
struct Ran {
    out: String,
    err: String,
    ok: bool,
}
fn go(mut c: Command) -> Ran {
    match c.stdin(Stdio::null()).output() {
        Ok(o) => Ran {
            out: String::from_utf8_lossy(&o.stdout).into_owned(),
            err: String::from_utf8_lossy(&o.stderr).into_owned(),
            ok: o.status.success(),
        },
        Err(e) => Ran { out: String::new(), err: e.to_string(), ok: false },
    }
}
fn complaint(tool: Tool, r: &Ran) -> Option<String> {
    if let Some(l) = r.out.lines().find(|l| l.starts_with("BAD ")) {
        return Some(l.to_string());
    }
    let hit = |l: &&str| match tool {
        Tool::Miri => l.contains("Undefined Behavior") || l.contains("memory leaked"),
        Tool::Asan => l.contains("ERROR: AddressSanitizer"),
    };
    r.err.lines().find(hit).map(|l| l.trim().to_string())
}
fn args(c: &mut Command, a: [u64; 5]) {
    c.args(a.map(|x| x.to_string()));
}
/// The tool must work, and must see an error that is there.
fn works(tool: Tool) -> Result<(), String> {
    let mut c = command(tool);
    args(&mut c, [1, 0, 0, 1, 1]);
    let r = go(c);
    if !r.ok || !r.out.contains("SEEN cases=0") {
        return Err(format!("does not run: {}", r.err.lines().last().unwrap_or("")));
    }
    let mut c = command(tool);
    c.arg("canary");
    let r = go(c);
    match complaint(tool, &r) {
        Some(_) => Ok(()),
        None => Err("does not see the canary's out-of-bounds read".into()),
    }
}
fn shards(tool: Tool, seed: u64, secs: u64, max: u64, cx: &mut Ctx) -> Vec<(String, String)> {
    let n = std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(1, 16);
    let runs: Vec<(u64, Ran)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|k| {
                s.spawn(move || {
                    let mut c = command(tool);
                    let from = k * 1_000_000;
                    args(&mut c, [seed, from, 1_000_000, max, secs]);
                    (from, go(c))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut bad = vec![];
    for (_, r) in runs {
        if let Some(m) = complaint(tool, &r) {
            let k = r.out.lines().filter_map(|l| l.strip_prefix("case ")).last().unwrap_or("0").to_string();
            let detail: String = r.err.lines().take(60).collect::<Vec<_>>().join("\n");
            bad.push((format!("{} seed={seed} case={k} max={max}: {m}", tool.name()), detail));
            continue;
        }
        if !r.ok {
            cx.count(&format!("{} processes that ended without a verdict", tool.name()), 1);
            eprintln!("{}: {}", tool.name(), r.err.lines().last().unwrap_or(""));
        }
        for l in r.out.lines().filter_map(|l| l.strip_prefix("SEEN ")) {
            for w in l.split(' ') {
                if let Some((k, v)) = w.split_once('=') {
                    cx.count(&format!("{} {k}", tool.name()), v.parse().unwrap_or(0));
                }
            }
        }
    }
    bad
}

impl Check for Memory {
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "the case delivered at least one string, token, event or node"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 60_000, thorough: 3_000_000 }
    }
    fn gen(&self, r: &mut Rng, _idx: u64, _tier: Tier) -> Input {
        let mut i = Input::new("workload");
        i.aux = vec![r.next(), *r.pick(&[20, 80, 300, 2000])];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if i.label == "once" {
            // A finding of Miri or AddressSanitizer: run that case there again.
            let t = String::from_utf8_lossy(&i.bytes).into_owned();
            let num = |k: &str| t.split([' ', ':']).find_map(|w| w.strip_prefix(k)).and_then(|x| x.parse().ok()).unwrap_or(0);
            let tool = if t.starts_with("miri") { Tool::Miri } else { Tool::Asan };
            let mut c = command(tool);
            args(&mut c, [num("seed="), num("case="), 1, num("max="), 1]);
            let r = go(c);
            return match complaint(tool, &r) {
                Some(m) => bad(m, r.err),
                None => V::Ok(true),
            };
        }
        let max = i.a(1).clamp(1, 4000) as usize;
        let measure = |seen: &mut workload::Seen| {
            let before = alloc::live();
            workload::case(i.a(0), max, seen);
            let after = alloc::live();
            (after.0 - before.0, after.1 - before.1)
        };
        let mut seen = workload::Seen::default();
        let d = measure(&mut seen);
        if let Some(b) = &seen.bad {
            return bad("a string that is not UTF-8", b.clone());
        }
        sut::guarded(|| ()).ok();
        if seen.panics == 0 && d.1 > 0 {
            // Something may have been set up once for all: ask again, twice.
            let mut again = workload::Seen::default();
            let d1 = measure(&mut again);
            let d2 = measure(&mut again);
            if again.panics == 0 && d1.1 > 0 && d2.1 > 0 {
                return bad("memory is not given back", format!("{} blocks, {} bytes, each time", d2.1, d2.0));
            }
        }
        cx.count("strings checked", seen.strings);
        cx.count("bytes of strings checked", seen.bytes);
        cx.count("events", seen.events);
        cx.count("tokens", seen.tokens);
        cx.count("nodes", seen.nodes);
        cx.count("bytes written", seen.out);
        cx.count("errors", seen.errors);
        cx.count("panics of a source or sink, survived", seen.bangs);
        cx.count("panics (see C01, C14)", seen.panics);
        cx.shape(fnv(format!("{:?}", (seen.strings, seen.events, seen.tokens, seen.nodes, seen.errors)).as_bytes()));
        V::Ok(seen.strings > 0 || seen.tokens > 0 || seen.events > 0 || seen.nodes > 0)
    }
    fn once(&self, cx: &mut Ctx, tier: Tier) -> Vec<(String, String)> {
        let start = Instant::now();
        for (tool, secs, max) in [(Tool::Miri, if tier == Tier::Quick { 40 } else { 400 }, 60), (Tool::Asan, if tier == Tier::Quick { 10 } else { 120 }, 2000)] {
            if let Err(e) = works(tool) {
                eprintln!("{}: {e}", tool.name());
                cx.count(&format!("{} not usable here", tool.name()), 1);
                continue;
            }
            if start.elapsed() > Duration::from_secs(700) {
                break;
            }
            let bad = shards(tool, seed(), secs, max, cx);
            if !bad.is_empty() {
                return bad;
            }
        }
        vec![]
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("strings checked", 10_000), ("bytes written", 10_000), ("errors", 1000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["Miri and AddressSanitizer come from the nightly toolchain installed here; each is first shown an out-of-bounds read, and one that does not see it is left out (counter 'not usable here')"]
    }
}
