//! C22: the two command-line tools of the repository, run as processes on files.
use super::writing::ref_emit;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{gen_ev, gen_yaml, input::*, sut, tri};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::{Command, Output, Stdio};

fn bin(name: &str) -> PathBuf {
    let dir = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| verif_dir().join("target"));
    dir.join("cli/release").join(name)
}

/// The event notation of the YAML test suite.
fn escape(o: &mut String, v: &str) {
    for c in v.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\0' => o.push_str("\\0"),
            '\x08' => o.push_str("\\b"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
}
fn notation(e: &Ev) -> String {
    let mut o = String::new();
    let props = |o: &mut String, a: &Option<String>, t: &Option<String>| {
        if let Some(a) = a {
            let _ = write!(o, " &{a}");
        }
        if let Some(t) = t {
            let _ = write!(o, " <{t}>");
        }
    };
    match e {
        Ev::StreamStart(_) => o.push_str("+STR"),
        Ev::StreamEnd => o.push_str("-STR"),
        Ev::DocStart { implicit, .. } => o.push_str(if *implicit { "+DOC" } else { "+DOC ---" }),
        Ev::DocEnd { implicit } => o.push_str(if *implicit { "-DOC" } else { "-DOC ..." }),
        Ev::Alias(a) => {
            let _ = write!(o, "=ALI *{a}");
        }
        Ev::Scalar { anchor, tag, value, style, .. } => {
            o.push_str("=VAL");
            props(&mut o, anchor, tag);
            o.push(' ');
            o.push(match sut::style_to(*style) {
                libyaml_safer::ScalarStyle::SingleQuoted => '\'',
                libyaml_safer::ScalarStyle::DoubleQuoted => '"',
                libyaml_safer::ScalarStyle::Literal => '|',
                libyaml_safer::ScalarStyle::Folded => '>',
                _ => ':',
            });
            escape(&mut o, value);
        }
        Ev::SeqStart { anchor, tag, .. } => {
            o.push_str("+SEQ");
            props(&mut o, anchor, tag);
        }
        Ev::SeqEnd => o.push_str("-SEQ"),
        Ev::MapStart { anchor, tag, .. } => {
            o.push_str("+MAP");
            props(&mut o, anchor, tag);
        }
        Ev::MapEnd => o.push_str("-MAP"),
    }
    o
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> std::io::Result<Scratch> {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let d = std::env::temp_dir().join(format!("vmon-cli-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d)?;
        Ok(Scratch(d))
    }
    fn file(&self, k: usize, data: &[u8]) -> std::io::Result<PathBuf> {
        let p = self.0.join(format!("f{k}"));
        std::fs::write(&p, data)?;
        Ok(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn run(name: &str, files: &[PathBuf]) -> std::io::Result<Output> {
    let dir = files.first().and_then(|p| p.parent()).unwrap_or(Path::new("/"));
    // A tool that does not end is a verdict; one that the machine held up gets a second chance.
    for secs in ["40", "90"] {
        let mut c = Command::new("timeout");
        c.args(["-k", "1", secs]).arg(bin(name)).args(files).current_dir(dir).stdin(Stdio::null());
        let o = c.env("RUST_BACKTRACE", "0").output()?;
        if o.status.code() != Some(124) && o.status.code() != Some(137) {
            return Ok(o);
        }
    }
    Err(std::io::ErrorKind::TimedOut.into())
}
fn io_verdict(e: std::io::Error) -> V {
    if e.kind() == std::io::ErrorKind::TimedOut {
        bad("the tool does not end", "")
    } else {
        V::Skip("the tool could not be run")
    }
}
fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let n = s.char_indices().nth(600).map_or(s.len(), |x| x.0);
    s[..n].to_string()
}

/// The events of a stream as the emitter tool can be told them: no directives, block collections,
/// and only what the notation can carry.
fn tellable(evs: &mut Vec<Ev>) {
    for e in evs.iter_mut() {
        let clean = |t: &mut Option<String>| {
            if let Some(s) = t {
                s.retain(|c| !matches!(c, '&' | '*' | '<' | '>' | ' ' | '\n' | '\r' | '\0' | '\x08' | '\t'));
                if s.is_empty() {
                    *t = None;
                }
            }
        };
        match e {
            Ev::StreamStart(x) => *x = 1,
            Ev::DocStart { ver, tags, .. } => {
                *ver = None;
                tags.clear();
            }
            Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
                clean(anchor);
                clean(tag);
                // The tool takes the first '&' and the first '<...>' of a line for the node's own.
                value.retain(|c| (c != '&' || anchor.is_some()) && (c != '<' || tag.is_some()));
                *plain = tag.is_none();
                *quoted = tag.is_none();
                if *style == 0 {
                    *style = 1;
                }
            }
            Ev::SeqStart { anchor, tag, implicit, style } => {
                clean(anchor);
                clean(tag);
                *implicit = false;
                *style = 1;
            }
            Ev::MapStart { anchor, tag, implicit, style } => {
                clean(anchor);
                clean(tag);
                *implicit = false;
                *style = 1;
            }
            _ => {}
        }
    }
}
fn utf8_only(e: &Ev) -> bool {
    // (A newline inside a tag would split the line.)
    let ok = |s: &Option<String>| s.as_deref().map_or(true, |s| !s.contains(['\n', '\r']));
    match e {
        Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => ok(anchor) && ok(tag),
        Ev::Alias(a) => !a.is_empty() && !a.contains([' ', '\n', '\r']),
        _ => true,
    }
}

pub struct Tools;
impl Check for Tools {
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "run-parser-test-suite is run on 1 to 6 files of texts, some rejected, and its output compared with the events of the library written in the test suite's notation; run-emitter-test-suite is run on 1 to 6 files of events and its output compared with libyaml's; exit status and error text are checked, also for malformed event files, missing files and missing arguments; non-trivial when a document was involved; distinct by files"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 16_000, thorough: 300_000 }
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the emitter tool's notation cannot tell an anchor or a tag from '&' or '<...>' in a value of a node that has none; such values are not written"]
    }
    fn fixed(&self) -> Vec<Input> {
        (0..4).map(|k| Input { aux: vec![9, k], ..Input::new("arguments") }).collect()
    }
    // aux: [tool, seed of each file...]
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = Input::new("files");
        let n = r.range(1, 6);
        i.aux = vec![r.below(4) as u64];
        for _ in 0..n {
            i.aux.push(r.next() >> 16);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let io = io_verdict;
        if !bin("run-parser-test-suite").exists() {
            return V::Skip("the tools were not built");
        }
        let dir = tri!(Scratch::new().map_err(io));
        match i.a(0) {
            0 | 1 => self.parser(i, &dir, cx),
            9 => self.arguments(i, &dir),
            _ => self.emitter(i, &dir, cx),
        }
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("texts through the parser tool", 1000), ("event files through the emitter tool", 1000), ("rejected texts", 100), ("rejected event files", 100)]
    }
}
impl Tools {
    fn parser(&self, i: &Input, dir: &Scratch, cx: &mut Ctx) -> V {
        let io = io_verdict;
        let (mut files, mut want, mut fails) = (vec![], String::new(), None);
        let mut docs = 0;
        // (How far a reader error is seen ahead depends on the tool's buffer.)
        let mut ahead = false;
        for (k, s) in i.aux[1..].iter().enumerate() {
            let mut r = Rng::new(*s);
            let data = if r.chance(1, 60) {
                // A long file.
                let (n, body, sep) = (*r.pick(&[5_000, 17_000, 70_000, 140_000, 300_000]), gen_yaml::structured(&mut r, 20), *r.pick(&["\n---\n", "\n...\n---\n", "\n...\n"]));
                let one = format!("{body}{sep}");
                cx.count("long files", 1);
                one.repeat(n / one.len() + 1).into_bytes()
            } else if i.a(0) == 0 {
                gen_yaml::any_text(&mut r, false).0.into_bytes()
            } else {
                gen_yaml::any_bytes(&mut r).0
            };
            files.push(tri!(dir.file(k, &data).map_err(io)));
            if fails.is_some() {
                continue;
            }
            let t = tri!(sut::parse(&data).map_err(|p| bad("panic", p)));
            for e in &t.items {
                want.push_str(&notation(&e.v));
                want.push('\n');
                docs += matches!(e.v, Ev::DocStart { .. }) as u64;
            }
            ahead |= t.err.as_ref().is_some_and(|e| e.kind == K::Reader);
            fails = t.err.map(|e| e.text);
        }
        cx.count("texts through the parser tool", files.len() as u64);
        cx.count("documents", docs);
        let o = tri!(run("run-parser-test-suite", &files).map_err(io));
        if o.stdout != want.as_bytes() && !(ahead && (o.stdout.starts_with(want.as_bytes()) || want.as_bytes().starts_with(&o.stdout))) {
            return bad("run-parser-test-suite does not print the events", format!("{}\nprinted {}\nwant {}", super::writing::diff_bytes(&o.stdout, want.as_bytes()), lossy(&o.stdout), lossy(want.as_bytes())));
        }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        match &fails {
            None => {
                if !o.status.success() || !err.is_empty() {
                    return bad("run-parser-test-suite fails on accepted text", format!("{:?} {}", o.status, lossy(&o.stderr)));
                }
            }
            Some(text) => {
                cx.count("rejected texts", 1);
                if o.status.code() != Some(1) {
                    return bad("run-parser-test-suite: exit status of a rejected text", format!("{:?}", o.status));
                }
                if !ahead && !err.contains(text.as_str()) || err.is_empty() {
                    return bad("run-parser-test-suite does not report the error", format!("{err:?} without {text:?}"));
                }
            }
        }
        cx.shape(fnv(&o.stdout));
        V::Ok(docs > 0)
    }
    fn emitter(&self, i: &Input, dir: &Scratch, cx: &mut Ctx) -> V {
        let io = io_verdict;
        let (mut files, mut want, mut fails) = (vec![], Vec::new(), false);
        let mut docs = 0;
        for (k, s) in i.aux[1..].iter().enumerate() {
            let mut r = Rng::new(*s);
            let mut evs = match r.below(3) {
                0 => gen_ev::any_stream(&mut r).0,
                _ => {
                    let b = r.range(3, 40) as i32;
                    gen_ev::stream(&mut r, b, true)
                }
            };
            if r.chance(1, 60) {
                // A long file: many documents, or one long value.
                cx.count("long files", 1);
                let n = *r.pick(&[300, 1100, 5_000, 20_000]);
                if r.bool() {
                    if let (Some(a), Some(b)) = (evs.iter().position(|e| matches!(e, Ev::DocStart { .. })), evs.iter().position(|e| matches!(e, Ev::DocEnd { .. }))) {
                        if a < b {
                            let doc = evs[a..=b].to_vec();
                            let many: Vec<Ev> = std::iter::repeat(&doc).take(n / doc.len() + 1).flatten().cloned().collect();
                            evs.splice(a..=b, many);
                        }
                    }
                } else if let Some(Ev::Scalar { value, .. }) = evs.iter_mut().find(|e| matches!(e, Ev::Scalar { .. })) {
                    let one = format!("{value}{}", gen_yaml::word(&mut r));
                    *value = one.repeat(n / one.len().max(1) + 1);
                }
            }
            tellable(&mut evs);
            evs.retain(utf8_only);
            let mut text = String::new();
            for e in &evs {
                text.push_str(&notation(e));
                text.push('\n');
            }
            let junk = r.chance(1, 40);
            if junk {
                text.push_str(*r.pick(&["?STR\n", "\n", "+FOO\n", " +STR\n", "=val :x\n", "-\n"]));
            } else if r.chance(1, 8) && text.ends_with('\n') {
                text.pop();
            }
            files.push(tri!(dir.file(k, text.as_bytes()).map_err(io)));
            if fails {
                continue;
            }
            let o = ref_emit(&evs, &Cfg { enc: 0, ..Cfg::default() });
            docs += evs.iter().filter(|e| matches!(e, Ev::DocStart { .. })).count() as u64;
            let unfinished = o.err.is_none() && !matches!(evs.last(), Some(Ev::StreamEnd));
            if o.err.is_some() || junk {
                fails = true;
            } else if unfinished {
                // What is not flushed is not written; only the part up to the last document end counts.
                return V::Skip("a stream without its end");
            }
            if !fails {
                want.extend(o.bytes);
            }
        }
        cx.count("event files through the emitter tool", files.len() as u64);
        let o = tri!(run("run-emitter-test-suite", &files).map_err(io));
        if fails {
            cx.count("rejected event files", 1);
            if o.status.code() != Some(1) || o.stderr.is_empty() {
                return bad("run-emitter-test-suite accepts a bad event file", format!("{:?} {}", o.status, lossy(&o.stderr)));
            }
            if !o.stdout.starts_with(&want) {
                return bad("run-emitter-test-suite output before an error", super::writing::diff_bytes(&o.stdout, &want));
            }
            return V::Ok(docs > 0);
        }
        if !o.status.success() || !o.stderr.is_empty() {
            return bad("run-emitter-test-suite fails on good events", format!("{:?} {}", o.status, lossy(&o.stderr)));
        }
        if o.stdout != want {
            return bad("run-emitter-test-suite does not write libyaml's text", format!("{}\nprinted {}\nwant {}", super::writing::diff_bytes(&o.stdout, &want), lossy(&o.stdout), lossy(&want)));
        }
        cx.shape(fnv(&o.stdout));
        V::Ok(docs > 0)
    }
    fn arguments(&self, i: &Input, dir: &Scratch) -> V {
        let io = io_verdict;
        let tool = if i.a(1) % 2 == 0 { "run-parser-test-suite" } else { "run-emitter-test-suite" };
        let files = if i.a(1) < 2 { vec![] } else { vec![dir.0.join("missing")] };
        let o = tri!(run(tool, &files).map_err(io));
        if o.status.success() || o.stderr.is_empty() || !o.stdout.is_empty() {
            return bad("a tool without its input succeeds", format!("{tool}: {:?} {} {}", o.status, lossy(&o.stdout), lossy(&o.stderr)));
        }
        V::Ok(false)
    }
}
