//! Parent/worker machinery: sharding, crash and hang attribution, shrinking, replay, evidence.
use crate::input::*;
use crate::rng::Rng;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub enum V {
    /// Property held; `true` when the case was non-trivial by the check's rule.
    Ok(bool),
    /// The oracle has no verdict here (reason).
    Skip(&'static str),
    Bad { sig: String, detail: String },
}
pub fn bad(sig: impl Into<String>, detail: impl Into<String>) -> V {
    V::Bad { sig: sig.into(), detail: detail.into() }
}
#[macro_export]
macro_rules! tri {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(v) => return v,
        }
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Ctx {
    pub counts: BTreeMap<String, u64>,
    pub shapes: HashSet<u64>,
    pub tier: Tier,
    progress: Option<fs::File>,
    pub quiet: bool,
    in_ref: bool,
}
impl Ctx {
    pub fn new(tier: Tier) -> Ctx {
        Ctx { counts: BTreeMap::new(), shapes: HashSet::new(), tier, progress: None, quiet: false, in_ref: false }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if n == 0 || self.quiet {
            return;
        }
        match self.counts.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counts.insert(k.to_string(), n);
            }
        }
    }
    /// Remember a distinct observed behaviour.
    pub fn shape(&mut self, h: u64) {
        if !self.quiet && self.shapes.len() < 2_000_000 {
            self.shapes.insert(h);
        }
    }
    /// Run something that is not the code under test.
    pub fn reference<T>(&mut self, f: impl FnOnce() -> T) -> T {
        if let Some(p) = &self.progress {
            let _ = p.write_at(&[1], 8);
        }
        self.in_ref = true;
        let v = f();
        self.in_ref = false;
        if let Some(p) = &self.progress {
            let _ = p.write_at(&[0], 8);
        }
        v
    }
}

pub struct Plan {
    /// Cases for a quick run.
    pub quick: u64,
    pub thorough: u64,
}

pub trait Check: Sync {
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn plan(&self) -> Plan;
    /// Fixed cases that come before the random ones.
    fn fixed(&self) -> Vec<Input> {
        vec![]
    }
    /// Called on a fixed case before it is run: what would cost too much to do for all of them at the start.
    fn settle(&self, _i: &mut Input) {}
    fn gen(&self, r: &mut Rng, idx: u64, tier: Tier) -> Input;
    fn run(&self, i: &Input, cx: &mut Ctx) -> V;
    /// Called once in the parent; violations found outside the case loop.
    fn once(&self, _cx: &mut Ctx, _tier: Tier) -> Vec<(String, String)> {
        vec![]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![]
    }
}

pub fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
pub fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}
pub fn tier() -> Tier {
    if std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false) {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit(res: i32, v: u64) {
    unsafe {
        setrlimit(res, &[v, v]);
    }
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;

/// Known findings: `known: property=<id> case=<hash of the failing case> ...` lines.
fn known(id: &str) -> HashSet<String> {
    let mut s = HashSet::new();
    if let Ok(t) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix("known: ") {
                let mut p = None;
                let mut c = None;
                for w in r.split_whitespace() {
                    if let Some(x) = w.strip_prefix("property=") {
                        p = Some(x.to_string());
                    }
                    if let Some(x) = w.strip_prefix("case=") {
                        c = Some(x.to_string());
                    }
                }
                if p.as_deref() == Some(id) {
                    s.extend(c);
                }
            }
        }
    }
    s
}

fn write_replay(id: &str, input: &Input, sig: &str, detail: &str) -> PathBuf {
    let d = verif_dir().join("replays");
    let _ = fs::create_dir_all(&d);
    let p = d.join(format!("{id}-{:016x}.case", input.hash()));
    let mut s = String::new();
    s.push_str(&format!("# property {id}\n# violation: {}\n", sig.replace('\n', " ")));
    for l in detail.lines().take(200) {
        s.push_str(&format!("# {l}\n"));
    }
    s.push_str(&format!("# as text: {:?}\n", String::from_utf8_lossy(&input.bytes)));
    s.push_str(&format!("# replay: cd /verif && bash replay.sh {id} {}\n", p.display()));
    s.push_str(&input.encode());
    let _ = fs::write(&p, s);
    p
}

fn case(c: &dyn Check, fixed: &[Input], seed: u64, idx: u64, t: Tier) -> Input {
    if (idx as usize) < fixed.len() {
        let mut i = fixed[idx as usize].clone();
        c.settle(&mut i);
        return i;
    }
    let mut r = case_rng(seed, c.id(), idx);
    c.gen(&mut r, idx, t)
}

/// Large cases run on a small stack: recursion that grows with the input overflows it.
fn on_small_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(160 << 10).spawn_scoped(s, f).expect("thread").join().expect("joined"))
}

/// Run a case; a panic that reaches here came from the code under test (or from the reference,
/// in which case there is no verdict).
fn run_case(c: &dyn Check, i: &Input, cx: &mut Ctx) -> V {
    let large = i.bytes.len() >= 4000 || i.evs.len() >= 1000 || i.aux.len() >= 150 || i.label.starts_with("deep");
    cx.count("large cases run on a small stack", large as u64);
    match if large { on_small_stack(|| crate::sut::guarded(|| c.run(i, cx))) } else { crate::sut::guarded(|| c.run(i, cx)) } {
        Ok(v) => v,
        Err(m) => {
            if cx.in_ref {
                cx.in_ref = false;
                V::Skip("the reference panicked")
            } else {
                bad(format!("panic: {m}"), "")
            }
        }
    }
}

/// The fixed cases alone, with the time each takes.
pub fn fixed(c: &dyn Check) -> i32 {
    crate::sut::install_hook();
    let mut cx = Ctx::new(Tier::Quick);
    for (k, mut i) in c.fixed().into_iter().enumerate() {
        c.settle(&mut i);
        let t = Instant::now();
        let v = match run_case(c, &i, &mut cx) {
            V::Ok(n) => format!("held {n}"),
            V::Skip(w) => format!("skipped {w}"),
            V::Bad { sig, detail } => format!("BAD {sig} {}", detail.chars().take(200).collect::<String>()),
        };
        println!("{k} {:.3} [{}] {v}", t.elapsed().as_secs_f64(), i.label);
    }
    0
}

// ------------------------------------------------------------------ worker
struct Stats {
    evals: u64,
    hashes: HashSet<u64>,
    skips: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

fn flush_stats(path: &Path, st: &Stats, cx: &Ctx, next: u64, done: bool, known_hits: &BTreeMap<String, String>) {
    let mut s = String::new();
    s.push_str(&format!("evals {}\nnext {next}\ndone {}\n", st.evals, done as u8));
    for (k, v) in &cx.counts {
        s.push_str(&format!("count {v} {k}\n"));
    }
    for (k, v) in &st.skips {
        s.push_str(&format!("skip {v} {k}\n"));
    }
    for x in &st.samples {
        s.push_str(&format!("sample {}\n", x.replace('\n', "\\n")));
    }
    for (k, v) in known_hits {
        s.push_str(&format!("known {k} {v}\n"));
    }
    let tmp = path.with_extension("tmp");
    let _ = fs::write(&tmp, s);
    let _ = fs::rename(&tmp, path);
    for (ext, set) in [("hashes", &st.hashes), ("shapes", &cx.shapes)] {
        let mut b = Vec::with_capacity(set.len() * 8);
        for h in set {
            b.extend_from_slice(&h.to_le_bytes());
        }
        let _ = fs::write(path.with_extension(ext), b);
    }
}

pub fn describe(i: &Input) -> String {
    let mut s = format!("[{}]", i.label);
    if !i.bytes.is_empty() {
        let t = String::from_utf8_lossy(&i.bytes).into_owned();
        s.push_str(&format!(" bytes({})={:?}", i.bytes.len(), t.chars().take(160).collect::<String>()));
    }
    if !i.evs.is_empty() {
        let t = format!("{:?}", i.evs);
        s.push_str(&format!(" events({})={}", i.evs.len(), t.chars().take(300).collect::<String>()));
        s.push_str(&format!(" {:?}", i.cfg));
    }
    if !i.aux.is_empty() {
        s.push_str(&format!(" aux={:?}", &i.aux[..i.aux.len().min(24)]));
    }
    s
}

/// Exit codes: 0 done, 3 violation (details in the `.viol` file).
pub fn worker(c: &dyn Check, dir: &Path, shard: u64, shards: u64, start: u64, secs: f64) -> i32 {
    crate::sut::install_hook();
    limit(RLIMIT_AS, 3 << 30);
    limit(RLIMIT_CORE, 0);
    let (seed, t) = (seed(), tier());
    let plan = c.plan();
    let fixed = c.fixed();
    let total = fixed.len() as u64 + if t == Tier::Quick { plan.quick } else { plan.thorough };
    let path = dir.join(format!("w{shard}.{start}.stats"));
    let progress = fs::OpenOptions::new().write(true).create(true).truncate(true).open(dir.join(format!("w{shard}.progress"))).unwrap();
    let mut cx = Ctx::new(t);
    cx.progress = Some(progress.try_clone().unwrap());
    let mut st = Stats { evals: 0, hashes: HashSet::new(), skips: BTreeMap::new(), samples: vec![] };
    let known = known(c.id());
    let mut known_hits = BTreeMap::new();
    let begin = Instant::now();
    let mut last = Instant::now();
    let mut idx = start;
    while idx < total {
        let mut p = [0u8; 9];
        p[..8].copy_from_slice(&idx.to_le_bytes());
        let _ = progress.write_at(&p, 0);
        let input = case(c, &fixed, seed, idx, t);
        st.evals += 1;
        match run_case(c, &input, &mut cx) {
            V::Ok(nt) => {
                if nt {
                    let h = input.hash();
                    if st.hashes.len() < 4_000_000 {
                        st.hashes.insert(h);
                    }
                    if st.samples.len() < 4 && st.evals % 97 == 1 {
                        st.samples.push(describe(&input));
                    }
                }
            }
            V::Skip(w) => *st.skips.entry(w).or_insert(0) += 1,
            V::Bad { sig, detail } => {
                let (min, sig, detail) = minimise(c, &input, sig, detail, t);
                let h = format!("{:016x}", min.hash());
                if known.contains(&h) {
                    known_hits.insert(h, sig);
                } else {
                    let rp = write_replay(c.id(), &min, &sig, &detail);
                    let _ = fs::write(dir.join(format!("w{shard}.viol")), format!("{}\n{idx}\n{h}\n{sig}\n{detail}", rp.display()));
                    flush_stats(&path, &st, &cx, idx + shards, false, &known_hits);
                    return 3;
                }
            }
        }
        idx += shards;
        if last.elapsed() > Duration::from_millis(1500) {
            flush_stats(&path, &st, &cx, idx, false, &known_hits);
            last = Instant::now();
            if begin.elapsed().as_secs_f64() > secs {
                break;
            }
        }
    }
    flush_stats(&path, &st, &cx, idx, true, &known_hits);
    0
}

fn minimise(c: &dyn Check, input: &Input, sig: String, detail: String, t: Tier) -> (Input, String, String) {
    let mut cx = Ctx::new(t);
    cx.quiet = true;
    let key = sig.clone();
    let min = shrink(input, Instant::now() + Duration::from_secs(8), |x| {
        matches!(run_case(c, x, &mut cx), V::Bad { sig, .. } if sig == key)
    });
    match run_case(c, &min, &mut cx) {
        V::Bad { sig, detail } => (min, sig, detail),
        _ => (input.clone(), sig, detail),
    }
}

/// Run one case alone; exit 0 held, 1 violated, 2 no verdict.
pub fn one(c: &dyn Check, dir: &Path, idx: u64) -> i32 {
    crate::sut::install_hook();
    limit(RLIMIT_AS, 3 << 30);
    limit(RLIMIT_CORE, 0);
    // Soft below hard: SIGXCPU tells a case that uses too much time from one killed from outside.
    unsafe {
        setrlimit(RLIMIT_CPU, &[40, 50]);
    }
    let t = tier();
    let fixed = c.fixed();
    let progress = fs::OpenOptions::new().write(true).create(true).truncate(true).open(dir.join("one.progress")).unwrap();
    let _ = progress.write_at(&[0; 9], 0);
    let mut cx = Ctx::new(t);
    cx.progress = Some(progress);
    let input = case(c, &fixed, seed(), idx, t);
    match run_case(c, &input, &mut cx) {
        V::Ok(_) => 0,
        V::Skip(_) => 2,
        V::Bad { .. } => 1,
    }
}

pub fn replay(c: &dyn Check, file: &str) -> i32 {
    crate::sut::install_hook();
    let text = fs::read_to_string(file).expect("replay file");
    let input = Input::decode(&text).expect("replay file format");
    println!("{}", describe(&input));
    let mut cx = Ctx::new(tier());
    match run_case(c, &input, &mut cx) {
        V::Ok(_) => {
            println!("held");
            0
        }
        V::Skip(w) => {
            println!("no verdict: {w}");
            0
        }
        V::Bad { sig, detail } => {
            println!("{sig}\n{detail}");
            println!("VIOLATION property={} replay={file}", c.id());
            1
        }
    }
}

// ------------------------------------------------------------------ parent
struct W {
    shard: u64,
    start: u64,
    child: Child,
    idx: u64,
    cpu_at: f64,
    /// When it last began a case or used CPU time, and how much it had used by then.
    alive: Instant,
    cpu_alive: f64,
    done: bool,
}
impl W {
    /// Waiting for something, not for its turn, for longer than any case waits.
    fn blocked(&mut self, cpu: f64) -> bool {
        blocked(self.child.id(), cpu, &mut self.alive, &mut self.cpu_alive)
    }
}
fn blocked(pid: u32, cpu: f64, alive: &mut Instant, cpu_alive: &mut f64) -> bool {
    if cpu - *cpu_alive > 0.05 || !sleeping(pid) {
        *alive = Instant::now();
        *cpu_alive = cpu;
    }
    alive.elapsed() > Duration::from_secs(40)
}

fn cpu_of(pid: u32) -> Option<f64> {
    let s = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let u: f64 = f.get(11)?.parse().ok()?;
    let k: f64 = f.get(12)?.parse().ok()?;
    Some((u + k) / 100.0)
}

/// All threads of the process sleep.
fn sleeping(pid: u32) -> bool {
    let Ok(d) = fs::read_dir(format!("/proc/{pid}/task")) else { return false };
    d.flatten().all(|t| {
        let s = fs::read_to_string(t.path().join("stat")).unwrap_or_default();
        s.rfind(')').is_some_and(|k| s[k..].starts_with(") S"))
    })
}

fn progress_of(p: &Path) -> (u64, u8) {
    match fs::read(p) {
        Ok(b) if b.len() >= 9 => (u64::from_le_bytes(b[..8].try_into().unwrap()), b[8]),
        Ok(b) if b.len() == 8 => (u64::from_le_bytes(b[..8].try_into().unwrap()), 0),
        _ => (u64::MAX, 0),
    }
}

fn spawn(id: &str, dir: &Path, shard: u64, shards: u64, start: u64, secs: f64) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args(["worker", id, &dir.display().to_string(), &shard.to_string(), &shards.to_string(), &start.to_string(), &secs.to_string()])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn worker")
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn check(c: &dyn Check) -> i32 {
    let begin = Instant::now();
    let t = tier();
    let id = c.id();
    let dir = verif_dir().join("target").join("run").join(format!("{id}-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let fixed_n = c.fixed().len() as u64;
    let plan = c.plan();
    let total = fixed_n + if t == Tier::Quick { plan.quick } else { plan.thorough };
    let secs = std::env::var("VMON_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(if t == Tier::Quick { 90.0 } else { 780.0 });
    let shards = std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(1, 16);
    let mut ws: Vec<W> = (0..shards)
        .map(|s| W { shard: s, start: s, child: spawn(id, &dir, s, shards, s, secs), idx: u64::MAX, cpu_at: 0.0, alive: Instant::now(), cpu_alive: 0.0, done: false })
        .collect();
    let mut viols: Vec<(PathBuf, String, String)> = vec![];
    let mut ref_crashes: Vec<u64> = vec![];
    let mut slow: Vec<u64> = vec![];
    let mut restarts = 0;
    let fixed = c.fixed();
    // However slow the code under test has become, there has to be an answer in time.
    let deadline = secs * 2.0 + 240.0;
    while ws.iter().any(|w| !w.done) && viols.is_empty() && begin.elapsed().as_secs_f64() < deadline {
        std::thread::sleep(Duration::from_millis(15));
        for w in &mut ws {
            if w.done || !viols.is_empty() || begin.elapsed().as_secs_f64() >= deadline {
                continue;
            }
            let pfile = dir.join(format!("w{}.progress", w.shard));
            let mut hang = false;
            match w.child.try_wait() {
                Ok(None) => {
                    let (idx, _) = progress_of(&pfile);
                    let cpu = cpu_of(w.child.id()).unwrap_or(0.0);
                    if idx != w.idx {
                        w.idx = idx;
                        w.cpu_at = cpu;
                        w.alive = Instant::now();
                        w.cpu_alive = cpu;
                        continue;
                    }
                    if cpu - w.cpu_at < 12.0 && !w.blocked(cpu) {
                        continue;
                    }
                    hang = true;
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                }
                Ok(Some(s)) => {
                    if s.code() == Some(0) {
                        w.done = true;
                        continue;
                    }
                    if s.code() == Some(3) {
                        let v = fs::read_to_string(dir.join(format!("w{}.viol", w.shard))).unwrap_or_default();
                        let mut l = v.splitn(5, '\n');
                        let rp = PathBuf::from(l.next().unwrap_or(""));
                        let _idx = l.next();
                        let h = l.next().unwrap_or("").to_string();
                        let sig = l.next().unwrap_or("").to_string();
                        viols.push((rp, sig + "\n" + l.next().unwrap_or(""), h));
                        w.done = true;
                        continue;
                    }
                }
                Err(_) => {}
            }
            // Died, or used far more time than any case needs: run that case alone to attribute it.
            let (idx, phase) = progress_of(&pfile);
            if idx == u64::MAX {
                eprintln!("worker {} did not start", w.shard);
                return 4;
            }
            let mut one = Command::new(std::env::current_exe().unwrap())
                .args(["one", id, &dir.display().to_string(), &idx.to_string()])
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
                .expect("spawn");
            let mut pipe = one.stderr.take().unwrap();
            let reader = std::thread::spawn(move || {
                use std::io::Read;
                let mut s = vec![];
                let _ = pipe.read_to_end(&mut s);
                String::from_utf8_lossy(&s).into_owned()
            });
            let (mut alive, mut cpu_alive, mut stuck) = (Instant::now(), 0.0, false);
            let s = loop {
                if let Some(s) = one.try_wait().unwrap() {
                    break s;
                }
                std::thread::sleep(Duration::from_millis(10));
                let cpu = cpu_of(one.id()).unwrap_or(0.0);
                if blocked(one.id(), cpu, &mut alive, &mut cpu_alive) {
                    stuck = true;
                    let _ = one.kill();
                }
            };
            let stderr = reader.join().unwrap_or_default();
            let (_, phase1) = progress_of(&dir.join("one.progress"));
            let by_ref = phase == 1 || phase1 == 1;
            let died = s.signal();
            if died.is_some() && !by_ref {
                let input = case(c, &fixed, seed(), idx, t);
                let sig = if stuck {
                    "no answer: it waits for something that does not come".to_string()
                } else if died == Some(24) {
                    "no answer after 40 s of CPU time".to_string()
                } else {
                    format!("process died with signal {}: {}", died.unwrap(), stderr.lines().last().unwrap_or(""))
                };
                // SIGKILL may come from outside (memory pressure): not a verdict.
                if died == Some(9) && !stuck {
                    slow.push(idx);
                } else {
                    let rp = write_replay(id, &input, &sig, &stderr);
                    let h = format!("{:016x}", input.hash());
                    if !known(id).contains(&h) {
                        viols.push((rp, sig, h));
                        w.done = true;
                        continue;
                    }
                }
            } else if by_ref {
                ref_crashes.push(idx);
            } else if s.code() == Some(1) {
                let input = case(c, &fixed, seed(), idx, t);
                let rp = write_replay(id, &input, "violation confirmed alone", &stderr);
                viols.push((rp, "violation confirmed alone".into(), format!("{:016x}", input.hash())));
                w.done = true;
                continue;
            } else {
                let _ = hang;
                slow.push(idx);
            }
            restarts += 1;
            if restarts > 200 {
                eprintln!("too many worker restarts");
                w.done = true;
                continue;
            }
            let next = idx + shards;
            w.start = next;
            w.idx = u64::MAX;
            w.cpu_at = 0.0;
            w.alive = Instant::now();
            w.cpu_alive = 0.0;
            let left = secs - begin.elapsed().as_secs_f64();
            w.child = spawn(id, &dir, w.shard, shards, next, left.max(1.0));
        }
    }
    for w in &mut ws {
        let _ = w.child.kill();
        let _ = w.child.wait();
    }
    // Collect.
    let mut evals = 0u64;
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut known_hits: BTreeMap<String, String> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut files: Vec<PathBuf> = fs::read_dir(&dir).unwrap().flatten().map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let ext = f.extension().and_then(|e| e.to_str()).unwrap_or("").to_string();
        if ext == "stats" {
            for l in fs::read_to_string(&f).unwrap_or_default().lines() {
                let mut w = l.splitn(3, ' ');
                match w.next() {
                    Some("evals") => evals += w.next().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0),
                    Some("count") => {
                        let n: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        *counts.entry(w.next().unwrap_or("").to_string()).or_insert(0) += n;
                    }
                    Some("skip") => {
                        let n: u64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                        *skips.entry(w.next().unwrap_or("").to_string()).or_insert(0) += n;
                    }
                    Some("sample") => {
                        if samples.len() < 12 {
                            samples.push(l[7..].to_string());
                        }
                    }
                    Some("known") => {
                        let h = w.next().unwrap_or("").to_string();
                        known_hits.insert(h, w.next().unwrap_or("").to_string());
                    }
                    _ => {}
                }
            }
        } else if ext == "hashes" || ext == "shapes" {
            let b = fs::read(&f).unwrap_or_default();
            let set = if ext == "hashes" { &mut hashes } else { &mut shapes };
            set.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
    }
    let mut cx = Ctx::new(t);
    if viols.is_empty() {
        crate::sut::install_hook();
        for (sig, detail) in c.once(&mut cx, t) {
            let mut i = Input::new("once");
            i.bytes = sig.clone().into_bytes();
            let rp = write_replay(id, &i, &sig, &detail);
            viols.push((rp, format!("{sig}\n{detail}"), format!("{:016x}", i.hash())));
        }
    }
    for (k, v) in &cx.counts {
        *counts.entry(k.clone()).or_insert(0) += v;
    }
    let _ = fs::remove_dir_all(&dir);
    // Did the monitors see enough for a verdict?
    let mut starved = vec![];
    if viols.is_empty() {
        for (k, n) in c.counter_floor() {
            if counts.get(k).copied().unwrap_or(0) < n {
                starved.push(format!("{k} = {} < {n}", counts.get(k).copied().unwrap_or(0)));
            }
        }
        if evals < total.min(200) {
            starved.push(format!("only {evals} cases"));
        }
    }
    let mut j = String::from("{\n");
    j.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n", json_str(id), json_str(if t == Tier::Quick { "quick" } else { "thorough" }), seed()));
    j.push_str(" \"coverage\": {\n");
    j.push_str(&format!("  \"evaluations\": {evals},\n  \"distinct_nontrivial\": {},\n  \"distinct_observed_behaviours\": {},\n", hashes.len(), shapes.len()));
    j.push_str(&format!("  \"rule\": {},\n", json_str(c.rule())));
    j.push_str(&format!("  \"planned_cases\": {total},\n"));
    j.push_str("  \"observed\": {");
    j.push_str(&counts.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    j.push_str("},\n  \"no_verdict\": {");
    j.push_str(&skips.iter().map(|(k, v)| format!("{}: {v}", json_str(k))).collect::<Vec<_>>().join(", "));
    j.push_str(&format!("}},\n  \"reference_crashes_skipped\": {},\n  \"slow_cases_without_verdict\": {},\n", ref_crashes.len(), slow.len()));
    j.push_str("  \"samples\": [");
    j.push_str(&samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",\n   "));
    j.push_str("]\n },\n \"assumptions\": [");
    j.push_str(&c.assumptions().iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    j.push_str(&format!("],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", begin.elapsed().as_secs_f64(), viols.len()));
    let ev = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&ev);
    let _ = fs::write(ev.join(format!("{id}.json")), j);
    let mut out = std::io::stdout();
    for (h, s) in &known_hits {
        let _ = writeln!(out, "KNOWN-FINDING: property={id} case={h} {s}");
    }
    let _ = writeln!(
        out,
        "{id}: {evals} cases, {} distinct non-trivial, {} distinct behaviours, {:.1} s",
        hashes.len(),
        shapes.len(),
        begin.elapsed().as_secs_f64()
    );
    if !viols.is_empty() {
        for (p, s, h) in &viols {
            let _ = writeln!(out, "case={h} {s}");
            let _ = writeln!(out, "VIOLATION property={id} replay={}", p.display());
        }
        return 1;
    }
    if !starved.is_empty() {
        let _ = writeln!(out, "INCONCLUSIVE: the monitors did not observe enough: {}", starved.join("; "));
        return 4;
    }
    0
}
