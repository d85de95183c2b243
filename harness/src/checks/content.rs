//! C26 tag resolution and C27 scalar presentation: texts written from known content by writers that
//! share nothing with libyaml or the code under test; the parser must give that content back.
use super::parity_read::*;
use crate::cmp::*;
use crate::gen_ev;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{refl, sut, tri};

// ================================================================ C26 tags
/// Reads numbers, then zeros.
struct Ops<'a> {
    v: &'a [u64],
    at: usize,
}
impl Ops<'_> {
    fn next(&mut self, n: u64) -> u64 {
        let x = self.v.get(self.at).copied().unwrap_or(0);
        self.at += 1;
        x % n
    }
}

const HANDLES: &[&str] = &["!e!", "!", "!!", "!e2!", "!E-_9!", "!a!", "!ab!", "!e-!", "!E!", "!ee!", "!A!", "!e_!", "!0!", "!00!", "!e!", "!e-_9!", "!a-very-long-handle-with-01234567890_-in-it!", "!a-very-long-handle-with-01234567890_-in-iT!"];
/// (text, what it means)
const PREFIXES: &[(&str, &str)] = &[
    ("tag:example.com,2000:", "tag:example.com,2000:"),
    ("!", "!"),
    ("!my-", "!my-"),
    ("x%21y", "x!y"),
    ("tag:%C3%A9:", "tag:é:"),
    ("a,b[c]", "a,b[c]"),
    ("http://x/?a=b&c+$~*'()", "http://x/?a=b&c+$~*'()"),
    ("%F0%9F%98%80", "😀"),
    ("%e2%82%ac", "€"),
    ("tag:yaml.org,2002:", "tag:yaml.org,2002:"),
    ("!!", "!!"),
    (";@", ";@"),
];
const SUFFIXES: &[(&str, &str)] = &[
    ("str", "str"),
    ("a", "a"),
    ("%41b", "Ab"),
    ("a%20b", "a b"),
    ("%C3%A9", "é"),
    ("x%E2%82%ac", "x€"),
    ("%F0%9F%98%80z", "😀z"),
    ("x.y!z", "x.y!z"),
    (";/?:@&=+$.~*'()", ";/?:@&=+$.~*'()"),
    ("%2c%5B", ",["),
    ("A-_9", "A-_9"),
    ("%25", "%"),
    ("%7F%01", "\u{7f}\u{1}"),
    ("e.!", "e.!"),
];
const VERBATIM: &[(&str, &str)] = &[
    ("!<tag:yaml.org,2002:str>", "tag:yaml.org,2002:str"),
    ("!<!foo>", "!foo"),
    ("!<a,b[c]>", "a,b[c]"),
    ("!<%C3%A9%41>", "éA"),
    ("!<!e!x>", "!e!x"),
    ("!<!>", "!"),
    ("!<tag:a%2Cb>", "tag:a,b"),
];
const BAD_TAGS: &[&str] = &["!e!", "!!", "!<>", "!%", "!%4", "!%4g", "!%80", "!%FF", "!%C3x", "!%C3%41", "!<a", "!a{b", "!<a b>", "!é", "!a\"b", "!%E2%82", "!a#b", "!a^b"];
const BAD_DIRECTIVES: &[&str] = &[
    "!e! %FF", "!e! %ff%41", "!e! tag:%80", "!e! x%C3", "!e! x%C3%41", "!e! %E2%82", "!e! %e2%82/", "!e! %F0%9F%98-", "!e! %C3%A9%F8", "!e! %f8%80", "!e! %", "!e! x%4", "!e! x%4g", "!e! %zz",
    "!e!", "!e! ", "!e! é", "!e! x{", "!e! x\"", "!e! x y", "!e! x#y", "!e x", "e! x", "!é! x", "!!x y", "!e!x y", "!e^! x", "x", "", "! {", "!! ^", "! %c0", "!! %4x",
];

struct TagText {
    text: String,
    want: Vec<Ev>,
    /// Exact (parser) or approximate (scanner) failure: problem, byte offset of its mark.
    err: Option<(Option<&'static str>, usize)>,
    bad_directive: bool,
    tags: u64,
}
struct TagWriter<'a> {
    o: Ops<'a>,
    dirs: Vec<(String, String)>,
    t: TagText,
    anchors: u64,
}
impl TagWriter<'_> {
    fn put(&mut self, s: &str) {
        self.t.text.push_str(s);
    }
    fn ev(&mut self, e: Ev) {
        if self.t.err.is_none() {
            self.t.want.push(e);
        }
    }
    fn fail(&mut self, what: Option<&'static str>, at: usize) {
        if self.t.err.is_none() {
            self.t.err = Some((what, at));
        }
    }
    /// Write the properties of a node (followed by nothing) and return anchor and tag.
    fn props(&mut self) -> (Option<String>, Option<String>) {
        let anchor = if self.o.next(5) == 1 {
            self.anchors += 1;
            Some(format!("x{}", self.anchors))
        } else {
            None
        };
        let kind = self.o.next(40);
        let first = self.o.next(2) == 1;
        let mut text = String::new();
        let mut undefined = false;
        let mut broken = false;
        let mut tag = None;
        let (s, sv) = SUFFIXES[self.o.next(SUFFIXES.len() as u64) as usize];
        match kind {
            0..=7 => {}
            8..=12 => {
                let (v, m) = VERBATIM[self.o.next(VERBATIM.len() as u64) as usize];
                text = v.into();
                tag = Some(m.to_string());
            }
            13 | 14 => {
                text = "!".into();
                tag = Some("!".into());
            }
            15 => {
                // Rarely something that is not a tag.
                if self.o.next(6) == 5 && self.t.err.is_none() {
                    text = BAD_TAGS[self.o.next(BAD_TAGS.len() as u64) as usize].into();
                    broken = true;
                }
            }
            _ => {
                // A shorthand; mostly with a handle that is defined here.
                let h = if !self.dirs.is_empty() && self.o.next(3) > 0 {
                    let k = self.o.next(self.dirs.len() as u64) as usize;
                    self.dirs[k].0.clone()
                } else if self.o.next(12) == 7 {
                    HANDLES[self.o.next(HANDLES.len() as u64) as usize].into()
                } else {
                    ["!", "!!"][self.o.next(2) as usize].to_string()
                };
                let prefix = self.dirs.iter().find(|d| d.0 == h).map(|d| d.1.clone()).or_else(|| match &*h {
                    "!" => Some("!".into()),
                    "!!" => Some("tag:yaml.org,2002:".into()),
                    _ => None,
                });
                text = format!("{h}{s}");
                match prefix {
                    Some(p) => tag = Some(format!("{p}{sv}")),
                    None => undefined = true,
                }
            }
        }
        if text.is_empty() && anchor.is_none() {
            return (None, None);
        }
        let mut parts = vec![];
        if let Some(a) = &anchor {
            parts.push(format!("&{a}"));
        }
        if !text.is_empty() {
            parts.insert(if first { 0 } else { parts.len() }, text.clone());
            self.t.tags += 1;
        }
        let gap = ["  ", " ", "\t"][self.o.next(3) as usize];
        for (k, p) in parts.iter().enumerate() {
            if k > 0 {
                self.put(gap);
            }
            let at = self.t.text.len();
            let is_tag = !p.starts_with('&');
            self.put(p);
            if is_tag && undefined {
                self.fail(Some("found undefined tag handle"), at);
            }
            if is_tag && broken {
                self.fail(None, at);
            }
        }
        (anchor, tag)
    }
    fn scalar(&mut self, anchor: Option<String>, tag: Option<String>, value: &str, style: u8) {
        let special = tag.as_deref() == Some("!");
        self.ev(Ev::Scalar {
            plain: style == 1 && tag.is_none() || special,
            quoted: style != 1 && tag.is_none(),
            anchor,
            tag,
            value: value.into(),
            style,
        });
    }
    /// A node inside a flow collection.
    fn flow_node(&mut self, depth: u64) {
        let (anchor, tag) = self.props();
        let props = anchor.is_some() || tag.is_some() || self.t.err.is_some();
        let sp = if props { " " } else { "" };
        let k = self.o.next(if depth > 3 { 4 } else { 7 });
        match k {
            0 if props => {
                // Nothing but properties; the ',' may follow a tag directly.
                let plain = tag.is_none();
                self.ev(Ev::Scalar { anchor, tag, value: String::new(), plain, quoted: false, style: 1 });
                if self.o.next(2) == 1 || self.t.text.ends_with('\'') {
                    self.put(" ");
                }
            }
            0 | 1 => {
                self.put(&format!("{sp}w"));
                self.scalar(anchor, tag, "w", 1);
            }
            2 => {
                self.put(&format!("{sp}\"dq\""));
                self.scalar(anchor, tag, "dq", 3);
            }
            3 => {
                self.put(&format!("{sp}'s'"));
                self.scalar(anchor, tag, "s", 2);
            }
            4 | 5 => self.flow_seq(anchor, tag, sp, depth),
            _ => self.flow_map(anchor, tag, sp, depth),
        }
    }
    fn flow_seq(&mut self, anchor: Option<String>, tag: Option<String>, sp: &str, depth: u64) {
        self.put(&format!("{sp}["));
        self.ev(Ev::SeqStart { implicit: tag.is_none(), anchor, tag, style: 2 });
        let n = self.o.next(4);
        for k in 0..n {
            if k > 0 {
                self.put(", ");
            }
            self.flow_node(depth + 1);
        }
        if self.t.text.ends_with(|c: char| c != ' ' && c != '[') {
            self.put(" ");
        }
        self.put("]");
        self.ev(Ev::SeqEnd);
    }
    fn flow_map(&mut self, anchor: Option<String>, tag: Option<String>, sp: &str, depth: u64) {
        self.put(&format!("{sp}{{"));
        self.ev(Ev::MapStart { implicit: tag.is_none(), anchor, tag, style: 2 });
        let n = self.o.next(3);
        for k in 0..n {
            if k > 0 {
                self.put(", ");
            }
            self.key("k");
            self.flow_node(depth + 1);
        }
        if self.t.text.ends_with(|c: char| c != ' ' && c != '{') {
            self.put(" ");
        }
        self.put("}");
        self.ev(Ev::MapEnd);
    }
    fn key(&mut self, name: &str) {
        let (anchor, tag) = if self.o.next(4) == 3 { self.props() } else { (None, None) };
        if anchor.is_some() || tag.is_some() || self.t.err.is_some() {
            self.put(" ");
        }
        self.put(&format!("{name}: "));
        self.scalar(anchor, tag, name, 1);
    }
    /// A node after "- ", "key: " or "--- "; ends its line.
    fn block_node(&mut self, indent: usize, depth: u64) {
        let (anchor, tag) = self.props();
        let props = anchor.is_some() || tag.is_some() || self.t.err.is_some();
        let sp = if props { " " } else { "" };
        let deep = depth > 3;
        match self.o.next(12) {
            0 if props => {
                let plain = tag.is_none();
                self.ev(Ev::Scalar { anchor, tag, value: String::new(), plain, quoted: false, style: 1 });
                self.put("\n");
            }
            0 | 1 => {
                self.put(&format!("{sp}word\n"));
                self.scalar(anchor, tag, "word", 1);
            }
            2 => {
                self.put(&format!("{sp}\"é q\"\n"));
                self.scalar(anchor, tag, "é q", 3);
            }
            3 => {
                self.put(&format!("{sp}'single'\n"));
                self.scalar(anchor, tag, "single", 2);
            }
            4 => {
                let pad = " ".repeat(indent);
                self.put(&format!("{sp}|\n{pad}lit\n"));
                self.scalar(anchor, tag, "lit\n", 4);
            }
            5 => {
                let pad = " ".repeat(indent);
                self.put(&format!("{sp}>-\n{pad}fo\n{pad}ld\n"));
                self.scalar(anchor, tag, "fo ld", 5);
            }
            6 => {
                self.flow_seq(anchor, tag, sp, depth);
                self.put("\n");
            }
            7 => {
                self.flow_map(anchor, tag, sp, depth);
                self.put("\n");
            }
            8 | 9 if !deep => {
                self.put("\n");
                self.ev(Ev::SeqStart { implicit: tag.is_none(), anchor, tag, style: 1 });
                self.items(indent, depth + 1);
                self.ev(Ev::SeqEnd);
            }
            _ if !deep => {
                self.put("\n");
                self.ev(Ev::MapStart { implicit: tag.is_none(), anchor, tag, style: 1 });
                for _ in 0..1 + self.o.next(3) {
                    self.put(&" ".repeat(indent));
                    self.key("key");
                    self.block_node(indent + 1 + self.t.text.len() % 3, depth + 1);
                }
                self.ev(Ev::MapEnd);
            }
            _ => {
                self.put(&format!("{sp}w\n"));
                self.scalar(anchor, tag, "w", 1);
            }
        }
    }
    fn items(&mut self, indent: usize, depth: u64) {
        for _ in 0..1 + self.o.next(3) {
            self.put(&" ".repeat(indent));
            self.put("- ");
            self.block_node(indent + 1 + self.t.text.len() % 3, depth + 1);
        }
    }
    fn stream(&mut self) {
        self.ev(Ev::StreamStart(1));
        let docs = 1 + self.o.next(4);
        let mut closed = true;
        for d in 0..docs {
            if self.t.err.is_some() {
                break;
            }
            self.dirs.clear();
            let mut ver = None;
            let mut tags = vec![];
            let n = if closed { self.o.next(4) } else { 0 };
            let version = if closed { self.o.next(12) } else { 0 };
            for k in 0..n + 1 {
                if version % 6 == 4 && k == version % (n + 1) {
                    let minor = 1 + self.o.next(2);
                    self.put(&format!("%YAML 1.{minor}\n"));
                    ver = Some((1, minor as i32));
                }
                if k == n {
                    break;
                }
                if self.o.next(50) == 33 {
                    let at = self.t.text.len();
                    self.fail(None, at);
                    let body = BAD_DIRECTIVES[self.o.next(BAD_DIRECTIVES.len() as u64) as usize];
                    self.put(&format!("%TAG {body}\n"));
                    self.t.bad_directive = true;
                    continue;
                }
                let h = HANDLES[self.o.next(HANDLES.len() as u64) as usize];
                let (p, v) = PREFIXES[self.o.next(PREFIXES.len() as u64) as usize];
                if tags.iter().any(|t: &(String, String)| t.0 == h) {
                    if self.o.next(8) != 5 {
                        continue;
                    }
                    let at = self.t.text.len();
                    self.fail(Some("found duplicate %TAG directive"), at);
                }
                let gap = ["  ", " ", "\t"][self.o.next(3) as usize];
                let end = ["\n", " \n", " # c\n"][self.o.next(3) as usize];
                self.put(&format!("%TAG{gap}{h}{gap}{p}{end}"));
                tags.push((h.to_string(), v.to_string()));
            }
            let implicit = tags.is_empty() && ver.is_none() && d == 0 && self.o.next(3) == 1;
            self.dirs = tags.clone();
            self.ev(Ev::DocStart { ver, tags, implicit });
            if implicit {
                let (m, _) = (self.o.next(2), 0);
                if m == 0 {
                    self.ev(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 });
                    self.items(0, 0);
                    self.ev(Ev::SeqEnd);
                } else {
                    self.ev(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 });
                    for _ in 0..1 + self.o.next(3) {
                        self.key("key");
                        self.block_node(2, 0);
                    }
                    self.ev(Ev::MapEnd);
                }
            } else {
                self.put("--- ");
                self.block_node(1, 0);
            }
            closed = self.o.next(2) == 0;
            if closed {
                self.put("...\n");
            }
            self.ev(Ev::DocEnd { implicit: !closed });
        }
        self.ev(Ev::StreamEnd);
    }
}
fn tag_text(ops: &[u64]) -> TagText {
    let mut w = TagWriter {
        o: Ops { v: ops, at: 0 },
        dirs: vec![],
        t: TagText { text: String::new(), want: vec![], err: None, bad_directive: false, tags: 0 },
        anchors: 0,
    };
    w.stream();
    w.t
}
/// A text with many tags and directives.
pub fn tagged(r: &mut Rng) -> String {
    let n = r.range(10, 80);
    let ops: Vec<u64> = (0..n).map(|_| r.next() >> 32).collect();
    tag_text(&ops).text
}
fn place(text: &str, at: usize) -> Mk {
    let p = places(text);
    let (l, c) = p.at.get(&(at as u64)).copied().unwrap_or((u64::MAX, u64::MAX));
    Mk { i: at as u64, l, c }
}

pub struct Tags;
impl Check for Tags {
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "streams of 1 to 4 documents with %TAG and %YAML directives, shorthand, verbatim and non-specific tags, %-escapes, undefined and duplicate handles and malformed tags on nodes of every kind, written together with the events they must produce; non-trivial when at least two tags occur; distinct by program"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 2_250_000, thorough: 30_000_000 }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = Input::new("tags");
        let n = r.range(4, 90);
        i.aux = (0..n).map(|_| r.next() >> 32).collect();
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let t = tag_text(&i.aux);
        let got = tri!(sut::parse(t.text.as_bytes()).map_err(|p| bad("panic", format!("{p}\n{:?}", t.text))));
        let say = |what: &str, d: String| {
            let r = refl::parse(t.text.as_bytes(), 0);
            let agree = r.items.iter().map(|x| &x.v).eq(got.items.iter().map(|x| &x.v));
            bad(what, format!("{d}\nlibyaml {} this\n{}", if agree { "agrees with" } else { "differs from" }, short(&t.text)))
        };
        let scanner = matches!(t.err, Some((None, _)));
        for (k, g) in got.items.iter().enumerate() {
            match t.want.get(k) {
                None => return say("an event that the text does not have", format!("#{k} {}", short(g))),
                Some(w) if *w != g.v => return say("event", format!("#{k} got {}\nwant {}", short(&g.v), short(w))),
                _ => {}
            }
        }
        if !scanner && got.items.len() != t.want.len() {
            return say("events are missing", format!("{} of {}: {}", got.items.len(), t.want.len(), short(&got.err)));
        }
        match (&t.err, &got.err) {
            (None, None) => {}
            (Some((want, at)), Some(e)) => {
                let kind = if want.is_some() { K::Parser } else { K::Scanner };
                if e.kind != kind || want.is_some_and(|w| w != e.problem) {
                    return say("another error", format!("got {}\nwant {want:?}", short(e)));
                }
                if want.is_some() && e.pm != Some(place(&t.text, *at)) {
                    return say("the error is at another place", format!("got {}\nwant {:?}", short(e), place(&t.text, *at)));
                }
                if want.is_none() && e.cm != Some(place(&t.text, *at)) {
                    return say("the error is in another tag", format!("got {}\nwant {:?}", short(e), place(&t.text, *at)));
                }
                cx.count(want.unwrap_or("malformed tags rejected"), 1);
            }
            (a, b) => return say("accepted or rejected wrongly", format!("got {}\nwant {a:?}", short(b))),
        }
        cx.count("texts with malformed directives", t.bad_directive as u64);
        cx.count("tags resolved", t.tags);
        cx.count("events", got.items.len() as u64);
        cx.shape(kinds_shape(&got.items));
        V::Ok(t.tags > 1)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("tags resolved", 10000), ("found undefined tag handle", 100), ("found duplicate %TAG directive", 100), ("malformed tags rejected", 100), ("texts with malformed directives", 100)]
    }
}

// ================================================================ C27 scalars
fn ws(c: char) -> bool {
    c == ' ' || c == '\t'
}
/// A break that stays itself when written as it is.
fn brk(c: char) -> bool {
    matches!(c, '\n' | '\u{2028}' | '\u{2029}')
}
fn any_brk(c: char) -> bool {
    brk(c) || matches!(c, '\r' | '\u{85}')
}

struct Out<'a> {
    s: String,
    r: &'a mut Rng,
    /// Line breaks to use: only "\n", or any.
    mixed: bool,
    base: &'static str,
}
impl Out<'_> {
    /// A break that reads as '\n'.
    fn nl(&mut self) {
        let b = if self.mixed { *self.r.pick(&["\n", "\n", "\r\n", "\r", "\u{85}"]) } else { self.base };
        self.raw(b);
    }
    fn raw(&mut self, b: &str) {
        if self.s.ends_with('\r') && b.starts_with('\n') {
            self.s.push(' ');
        }
        self.s.push_str(b);
    }
    fn brk(&mut self, c: char) {
        if c == '\n' {
            self.nl();
        } else {
            let mut b = [0; 4];
            let b: &str = c.encode_utf8(&mut b);
            self.raw(b);
        }
    }
    fn spaces(&mut self, n: usize) {
        for _ in 0..n {
            self.s.push(' ');
        }
    }
    /// Breaks within a flow scalar that read as `run`, then the indentation of the next line.
    fn flow_run(&mut self, run: &[char], ind: usize, tabs: bool) {
        // A single '\n' would read as a space.
        if run[0] == '\n' {
            self.trail(tabs);
            self.nl();
        }
        for c in run {
            self.trail(tabs);
            self.brk(*c);
        }
        self.spaces(ind);
        if tabs && self.r.chance(1, 12) {
            self.s.push('\t');
        }
    }
    /// White space before a break that means nothing.
    fn trail(&mut self, tabs: bool) {
        if self.r.chance(1, 8) {
            let n = self.r.range(1, 3);
            self.spaces(n);
            if tabs && self.r.chance(1, 4) {
                self.s.push('\t');
            }
        }
    }
    fn fold(&mut self, ind: usize, tabs: bool) {
        self.trail(tabs);
        self.nl();
        self.spaces(ind);
        if tabs && self.r.chance(1, 12) {
            self.s.push('\t');
        }
    }
    fn escape(&mut self, c: char) {
        let v = c as u32;
        let mut forms = vec![];
        match c {
            '\0' => forms.push("\\0".to_string()),
            '\u{7}' => forms.push("\\a".into()),
            '\u{8}' => forms.push("\\b".into()),
            '\t' => forms.extend(["\\t".into(), "\\\t".into()]),
            '\n' => forms.push("\\n".into()),
            '\u{b}' => forms.push("\\v".into()),
            '\u{c}' => forms.push("\\f".into()),
            '\r' => forms.push("\\r".into()),
            '\u{1b}' => forms.push("\\e".into()),
            ' ' => forms.push("\\ ".into()),
            '"' => forms.push("\\\"".into()),
            '/' => forms.push("\\/".into()),
            '\\' => forms.push("\\\\".into()),
            '\u{85}' => forms.push("\\N".into()),
            '\u{a0}' => forms.push("\\_".into()),
            '\u{2028}' => forms.push("\\L".into()),
            '\u{2029}' => forms.push("\\P".into()),
            _ => {}
        }
        if self.r.chance(1, 3) || forms.is_empty() {
            let upper = self.r.bool();
            let hex = |n: usize| if upper { format!("{v:0n$X}") } else { format!("{v:0n$x}") };
            forms.clear();
            if v <= 0xff {
                forms.push(format!("\\x{}", hex(2)));
            }
            if v <= 0xffff {
                forms.push(format!("\\u{}", hex(4)));
            }
            forms.push(format!("\\U{}", hex(8)));
        }
        let f = self.r.pick(&forms).clone();
        self.s.push_str(&f);
    }
    fn double(&mut self, c: &[char], ind: usize, one_line: bool) {
        self.s.push('"');
        // The last thing written was white space as itself; or a line was just begun.
        let (mut blank, mut start) = (false, false);
        let rate = self.r.range(2, 30);
        let mut k = 0;
        while k < c.len() {
            let ch = c[k];
            if !one_line && self.r.chance(1, 3 * rate) {
                self.s.push('\\');
                self.nl();
                self.spaces(ind);
                (blank, start) = (false, true);
            }
            if !one_line && !start && !blank && ch == ' ' && self.r.chance(1, rate) {
                self.fold(ind, true);
                (blank, start) = (false, true);
                k += 1;
                continue;
            }
            if !one_line && !start && !blank && brk(ch) && self.r.bool() {
                let all = c[k..].iter().take_while(|c| brk(**c)).count();
                let n = self.r.range(1, all);
                let run = &c[k..k + n];
                self.flow_run(run, ind, true);
                (blank, start) = (false, true);
                k += n;
                continue;
            }
            let raw = allowed(ch) && !any_brk(ch) && ch != '"' && ch != '\\' && !(start && ws(ch)) && !self.r.chance(1, 2 * rate);
            if raw {
                self.s.push(ch);
                blank = ws(ch);
            } else {
                self.escape(ch);
                blank = false;
            }
            start = false;
            k += 1;
        }
        self.s.push('"');
    }
    /// Single-quoted or plain text; the caller has made sure that it can be written.
    fn flow_text(&mut self, c: &[char], ind: usize, one_line: bool, single: bool) {
        let rate = self.r.range(2, 30);
        let mut k = 0;
        while k < c.len() {
            let ch = c[k];
            let near = |n: usize| c.get(n).is_some_and(|c| ws(*c) || any_brk(*c));
            if brk(ch) {
                let n = c[k..].iter().take_while(|c| brk(**c)).count();
                self.flow_run(&c[k..k + n], ind, single);
                k += n;
                continue;
            }
            if !one_line && ch == ' ' && !near(k + 1) && !(k > 0 && near(k - 1)) && self.r.chance(1, rate) && (single || c.get(k + 1) != Some(&'#')) {
                self.fold(ind, single);
            } else {
                self.s.push(ch);
                if single && ch == '\'' {
                    self.s.push('\'');
                }
            }
            k += 1;
        }
    }
    /// A literal or folded scalar, from its header to the end of its last line.
    fn block(&mut self, c: &[char], parent: isize, folded: bool, last: bool) {
        let base = parent.max(0) as usize;
        let inc = if self.r.chance(1, 6) { self.r.range(1, 9) } else { self.r.range(1, 4) };
        let ind = base + inc;
        let tail = c.iter().rev().take_while(|c| brk(**c)).count();
        let body = &c[..c.len() - tail];
        let lead = body.iter().take_while(|c| brk(**c)).count();
        // Which chomping indicators read this ending?
        let mut chomp = vec![];
        if tail == 0 {
            chomp.push("-");
        }
        if body.is_empty() && tail == 0 {
            chomp.extend(["", "+"]);
        }
        if tail == 1 && !body.is_empty() {
            chomp.push("");
        }
        if tail > 0 {
            chomp.push("+");
        }
        let chomp = *self.r.pick(&chomp);
        let need = body.get(lead).is_some_and(|c| ws(*c));
        let explicit = need || self.r.chance(1, 4);
        let digit = inc.to_string();
        self.s.push(if folded { '>' } else { '|' });
        match (explicit, self.r.bool()) {
            (false, _) => self.s.push_str(chomp),
            (_, true) => {
                self.s.push_str(chomp);
                self.s.push_str(&digit);
            }
            _ => {
                self.s.push_str(&digit);
                self.s.push_str(chomp);
            }
        }
        if self.r.chance(1, 6) {
            let t = *self.r.pick(&[" ", "  # comment", "\t", " #"]);
            self.s.push_str(t);
        }
        self.nl();
        let blank_line = |o: &mut Self| {
            if o.r.chance(1, 5) {
                let n = o.r.below(ind + 1);
                o.spaces(n);
            }
        };
        let mut k = 0;
        let mut prev_blank: Option<bool> = None;
        while k < body.len() {
            let n = body[k..].iter().take_while(|c| brk(**c)).count();
            let run = &body[k..k + n];
            k += n;
            let next_blank = body.get(k).is_some_and(|c| ws(*c));
            if let Some(pb) = prev_blank {
                if folded && !pb && !next_blank && run[0] == '\n' {
                    self.nl();
                    for c in run {
                        blank_line(self);
                        self.brk(*c);
                    }
                } else {
                    for (j, c) in run.iter().enumerate() {
                        if j > 0 {
                            blank_line(self);
                        }
                        self.brk(*c);
                    }
                }
            } else {
                for c in run {
                    blank_line(self);
                    self.brk(*c);
                }
            }
            if k == body.len() {
                break;
            }
            self.spaces(ind);
            let n = body[k..].iter().take_while(|c| !brk(**c)).count();
            let line = &body[k..k + n];
            k += n;
            let rate = self.r.range(2, 20);
            for (j, ch) in line.iter().enumerate() {
                let near = |n: usize| line.get(n).is_none_or(|c| ws(*c));
                if folded && !next_blank && *ch == ' ' && j > 0 && !near(j - 1) && !near(j + 1) && self.r.chance(1, rate) {
                    self.nl();
                    self.spaces(ind);
                } else {
                    self.s.push(*ch);
                }
            }
            prev_blank = Some(next_blank);
        }
        let ending = &c[c.len() - tail..];
        for (j, c) in ending.iter().enumerate() {
            if j > 0 || body.is_empty() {
                blank_line(self);
            }
            self.brk(*c);
        }
        if tail == 0 && !body.is_empty() && !(last && self.r.chance(1, 4)) {
            self.nl();
        }
        // Lines that chomping takes away.
        if chomp != "+" && self.r.chance(1, 6) && (!body.is_empty() || chomp == "-" || tail == 0) && !(last && self.s.ends_with(|c: char| !any_brk(c))) {
            for _ in 0..self.r.range(1, 3) {
                blank_line(self);
                self.nl();
            }
        }
    }
}

/// Can it be written so: 2 single-quoted, 1 plain, 4 and 5 block?
fn writable(c: &[char], style: u8, one_line: bool, flow: bool) -> bool {
    if style == 3 {
        return true;
    }
    if c.iter().any(|c| !allowed(*c) || *c == '\r' || *c == '\u{85}') {
        return false;
    }
    let at = |k: usize| c.get(k).copied().unwrap_or('\n');
    if style >= 4 {
        // The input's own byte order mark is no matter here, one within is; tabs need care.
        return !flow && !one_line;
    }
    if one_line && c.iter().any(|c| any_brk(*c)) {
        return false;
    }
    for k in 0..c.len() {
        if brk(c[k]) && (k > 0 && ws(c[k - 1]) || k + 1 < c.len() && ws(c[k + 1])) {
            return false;
        }
    }
    if style == 2 {
        return true;
    }
    let safe = |c: char| c.is_ascii_alphanumeric() || c > '\u{a0}' && !brk(c) && c != '\u{feff}';
    if c.is_empty() || !safe(c[0]) || ws(c[c.len() - 1]) || brk(c[c.len() - 1]) {
        return false;
    }
    for k in 0..c.len() {
        let prev = if k > 0 { c[k - 1] } else { ' ' };
        match c[k] {
            ',' | '[' | ']' | '{' | '}' | '?' if flow => return false,
            ':' if flow || k + 1 == c.len() || ws(at(k + 1)) || any_brk(at(k + 1)) => return false,
            '#' if ws(prev) || any_brk(prev) => return false,
            '\u{feff}' => return false,
            _ => {}
        }
    }
    true
}

/// A stream that contains `c` written as `style` (or another if that cannot be), and its events.
fn present(c: &[char], style: u8, context: u64, r: &mut Rng) -> (String, Vec<Ev>, u8, usize) {
    let context = context % 10;
    let flow = matches!(context, 4 | 5 | 9);
    let one_line = matches!(context, 6 | 9) ;
    let mut style = style;
    if !writable(c, style, one_line, flow) {
        style = *r.pick(&[1u8, 2, 4, 5]);
        if !writable(c, style, one_line, flow) {
            style = 3;
        }
    }
    let mixed = r.chance(1, 3);
    let base = *r.pick(&["\n", "\n", "\r\n", "\r"]);
    let anchor = r.chance(1, 6);
    let mut o = Out { s: String::new(), r, mixed, base };
    let value: String = c.iter().collect();
    let x = Ev::Scalar { anchor: anchor.then(|| "a".to_string()), tag: None, value, plain: style == 1, quoted: style != 1, style };
    let z = |v: &str| Ev::Scalar { anchor: None, tag: None, value: v.into(), plain: true, quoted: false, style: 1 };
    let seq = |s: u8| Ev::SeqStart { anchor: None, tag: None, implicit: true, style: s };
    let map = |s: u8| Ev::MapStart { anchor: None, tag: None, implicit: true, style: s };
    let mut want = vec![Ev::StreamStart(1)];
    let doc = |implicit: bool| Ev::DocStart { ver: None, tags: vec![], implicit };
    let end = Ev::DocEnd { implicit: true };
    // Write X: after an indicator, possibly on the next line.
    fn hole(o: &mut Out, c: &[char], style: u8, parent: isize, one_line: bool, anchor: bool, flow: bool, last: bool) {
        if anchor {
            o.s.push_str("&a ");
        }
        if !one_line && o.r.chance(1, 8) && !(parent < 0 && o.s.is_empty()) {
            if flow && o.r.bool() {
                o.s.push_str(" # comment");
            }
            o.nl();
            let n = (parent + 1).max(1) as usize + o.r.below(4);
            o.spaces(n);
        }
        let ind = (parent + 1).max(1) as usize + o.r.below(4);
        match style {
            1 => o.flow_text(c, ind, one_line, false),
            2 => {
                o.s.push('\'');
                o.flow_text(c, ind, one_line, true);
                o.s.push('\'');
            }
            3 => o.double(c, ind, one_line),
            k => o.block(c, parent, k == 5, last),
        }
        if style < 4 && !flow && !one_line {
            if o.r.chance(1, 8) {
                o.s.push_str("  # comment");
            }
            if !(last && o.r.bool()) {
                o.nl();
            }
        }
    }
    let mut levels = 0;
    match context {
        0 => {
            o.s.push_str("--- ");
            hole(&mut o, c, style, -1, false, anchor, false, true);
            want.extend([doc(false), x, end]);
        }
        1 => {
            // Nothing before it.
            hole(&mut o, c, style, -1, false, anchor, false, true);
            want.extend([doc(true), x, end]);
        }
        2 => {
            levels = o.r.below(4);
            for _ in 0..levels + 1 {
                o.s.push_str("- ");
            }
            hole(&mut o, c, style, 2 * levels as isize, false, anchor, false, false);
            o.spaces(2 * levels);
            o.s.push_str("- z");
            o.nl();
            want.push(doc(true));
            want.extend((0..levels + 1).map(|_| seq(1)));
            want.extend([x, z("z")]);
            want.extend((0..levels + 1).map(|_| Ev::SeqEnd));
            want.push(end);
        }
        3 => {
            levels = o.r.below(4);
            let mut col = 0;
            want.push(doc(true));
            for _ in 0..levels {
                o.spaces(col);
                o.s.push_str("k:");
                o.nl();
                col += o.r.range(1, 4);
                want.extend([map(1), z("k")]);
            }
            o.spaces(col);
            o.s.push_str("k: ");
            hole(&mut o, c, style, col as isize, false, anchor, false, false);
            o.spaces(col);
            o.s.push_str("z: y");
            o.nl();
            want.extend([map(1), z("k"), x, z("z"), z("y")]);
            want.extend((0..levels + 1).map(|_| Ev::MapEnd));
            want.push(end);
        }
        4 => {
            let inner = o.r.bool();
            o.s.push_str(if inner { "k: [" } else { "[ " });
            hole(&mut o, c, style, if inner { 0 } else { -1 }, false, anchor, true, false);
            o.s.push_str(*o.r.pick(&[", z]", " , z ]", ",z, ]", ",\n z]"]));
            o.nl();
            want.push(doc(true));
            if inner {
                want.extend([map(1), z("k")]);
            }
            want.extend([seq(2), x, z("z"), Ev::SeqEnd]);
            if inner {
                want.push(Ev::MapEnd);
            }
            want.push(end);
        }
        5 => {
            o.s.push_str(*o.r.pick(&["{k: ", "{ k:  ", "{\"k\": "]));
            let q = o.s.contains('"');
            hole(&mut o, c, style, -1, false, anchor, true, false);
            o.s.push_str(*o.r.pick(&[", z: y}", " , z: y }", ",z: y,}"]));
            o.nl();
            let k = if q { Ev::Scalar { anchor: None, tag: None, value: "k".into(), plain: false, quoted: true, style: 3 } } else { z("k") };
            want.extend([doc(true), map(2), k, x, z("z"), z("y"), Ev::MapEnd, end]);
        }
        6 => {
            hole(&mut o, c, style, -1, true, anchor, false, false);
            o.s.push_str(*o.r.pick(&[": v", " : v", ":  v"]));
            o.nl();
            o.s.push_str("z: y");
            want.extend([doc(true), map(1), x, z("v"), z("z"), z("y"), Ev::MapEnd, end]);
        }
        7 => {
            o.s.push_str("? ");
            hole(&mut o, c, style, 0, false, anchor, false, false);
            o.s.push_str(": v");
            o.nl();
            o.s.push_str("z: y");
            want.extend([doc(true), map(1), x, z("v"), z("z"), z("y"), Ev::MapEnd, end]);
        }
        8 => {
            o.s.push_str("k:");
            o.nl();
            o.s.push_str("- ");
            hole(&mut o, c, style, 0, false, anchor, false, false);
            o.s.push_str("- z");
            o.nl();
            want.extend([doc(true), map(1), z("k"), seq(1), x, z("z"), Ev::SeqEnd, Ev::MapEnd, end]);
        }
        _ => {
            o.s.push('{');
            hole(&mut o, c, style, -1, true, anchor, true, false);
            o.s.push_str(": v, z: y}");
            want.extend([doc(true), map(2), x, z("v"), z("z"), z("y"), Ev::MapEnd, end]);
        }
    }
    want.push(Ev::StreamEnd);
    (o.s, want, style, levels)
}

pub struct Scalars;
impl Check for Scalars {
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "a content (words, blanks, breaks of every kind, quotes, backslashes, controls, any Unicode, lengths around internal limits) is written as a plain, single-quoted, double-quoted, literal or folded scalar with random escapes, folding, blank lines, indentation, chomping, comments and line breaks, in one of ten contexts; non-trivial when it has at least two characters; distinct by text"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 5_000_000, thorough: 150_000_000 }
    }
    // bytes: the content; aux: [style, context, seed]
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = Input::new("scalar");
        let s = match r.below(6) {
            0 | 1 => gen_ev::value(r),
            2 => {
                let n = r.range(1, 14);
                (0..n).map(|_| *r.pick(&["a", "b c", "word", " ", "\n", "\n", "\n\n", "  ", "é", "x y z"])).collect()
            }
            3 => {
                let n = r.range(1, 10);
                (0..n).map(|_| *r.pick(&["a", "b c", " ", "\n", "\u{2028}", "\u{2029}", "\t", "\u{85}", "'", "\"", "\\", "😀", "\r", "a:b", "a#", "-", "x"])).collect()
            }
            4 => {
                let n = r.range(1, 30);
                (0..n).map(|_| *r.pick(&["lorem", "ipsum", "it's", "x:y", "a#b", "é"])).collect::<Vec<_>>().join(*r.pick(&[" ", " ", "\n", "\n\n"]))
            }
            _ => {
                // Lines, some of them indented.
                let n = r.range(1, 8);
                (0..n).map(|_| format!("{}{}{}", r.pick(&["", "", "", " ", "  ", "\t"]), r.pick(&["x", "x y z", "", "#c", "- q", "k: v", "---", "...", "% d"]), r.pick(&["\n", "\n", "\n", "\n\n", "\n\n\n", "\u{2029}", ""]))).collect()
            }
        };
        i.bytes = s.into_bytes();
        i.aux = vec![1 + r.below(5) as u64, r.below(10) as u64, r.next() >> 40];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let Ok(s) = std::str::from_utf8(&i.bytes) else { return V::Skip("content is not UTF-8") };
        let c: Vec<char> = s.chars().collect();
        let mut r = Rng::new(i.a(2));
        let style = 1 + ((i.a(0) + 4) % 5) as u8;
        let (text, want, style, _) = present(&c, style, i.a(1), &mut r);
        // A simple key may have at most 1024 characters.
        if matches!(i.a(1) % 10, 6 | 9) && text.len() > 1000 {
            return V::Skip("too long for a simple key");
        }
        let got = tri!(sut::parse(text.as_bytes()).map_err(|p| bad("panic", format!("{p}\n{:?}", short(&text)))));
        let say = |what: &str, d: String| {
            let r = refl::parse(text.as_bytes(), 0);
            let agree = r.items.iter().map(|x| &x.v).eq(got.items.iter().map(|x| &x.v)) && r.err.is_some() == got.err.is_some();
            bad(what, format!("{d}\nlibyaml {} this\n{}", if agree { "agrees with" } else { "differs from" }, short(&text)))
        };
        if let Some(e) = &got.err {
            return say("a well-formed scalar is rejected", e.text.clone());
        }
        for (k, w) in want.iter().enumerate() {
            match got.items.get(k) {
                Some(g) if g.v == *w => {}
                g => return say("read differently from what was written", format!("#{k} got {}\nwant {}", short(&g.map(|g| &g.v)), short(w))),
            }
        }
        if got.items.len() != want.len() {
            return say("more was read than written", short(&got.items.last()));
        }
        cx.count(["", "plain", "single-quoted", "double-quoted", "literal", "folded"][style as usize], 1);
        cx.count(["document", "bare document", "sequence item", "mapping value", "flow item", "flow value", "key", "explicit key", "indentless item", "flow key"][(i.a(1) % 10) as usize], 1);
        cx.shape(fnv(text.as_bytes()));
        V::Ok(c.len() > 1)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("plain", 1000), ("single-quoted", 1000), ("double-quoted", 1000), ("literal", 1000), ("folded", 1000)]
    }
}
