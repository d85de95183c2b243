//! Event-stream, document and configuration generators for the writing side.
use crate::gen_yaml::{edge_len, word, CHARS};
use crate::model::*;
use crate::rng::Rng;

pub fn cfg(r: &mut Rng) -> Cfg {
    Cfg {
        canonical: r.chance(1, 8),
        indent: match r.below(4) {
            0 | 1 => None,
            _ => Some(*r.pick(&[-1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 100])),
        },
        width: match r.below(3) {
            0 => None,
            _ => Some(*r.pick(&[-100, -1, 0, 1, 2, 3, 4, 5, 8, 10, 12, 15, 20, 30, 40, 60, 80, 81, 200, 100000])),
        },
        unicode: r.bool(),
        brk: match r.below(3) {
            0 => None,
            _ => Some(r.below(4) as u8),
        },
        enc: match r.below(6) {
            0 => 1,
            1 => 2,
            2 => 3,
            _ => 0,
        },
    }
}

pub fn anchor_name(r: &mut Rng) -> String {
    let mut s = String::new();
    let n = if r.chance(1, 40) { edge_len(r) + 1 } else { r.range(1, 4) };
    for _ in 0..n {
        s.push(*r.pick(&['a', 'b', 'Z', '0', '9', '_', '-']));
    }
    s
}

/// Almost one of the tags that mean something.
pub fn near_tag(r: &mut Rng) -> String {
    let end = *r.pick(&["str", "seq", "map", "int", "null", "s", ""]);
    match r.below(8) {
        0 => format!("tag:{},{}:{end}", r.pick(&["example.org", "yaml.org", "yaml.com", "YAML.org", "org"]), r.pick(&["2002", "2000", "2002-01", ""])),
        1 => format!("{}{end}", r.pick(&["!", "!!", "x:", ":", "tag:", "yaml.org,2002:", "TAG:yaml.org,2002:", "urn:tag:yaml.org,2002:"])),
        2 => format!("tag:yaml.org,2002:{}", end.to_uppercase()),
        3 => format!("tag:yaml.org,2002:{end}{}", r.pick(&["s", ":", "/", "!", "#", "str", ":str"])),
        4 => format!("tag:yaml.org,2002:{}{end}", r.pick(&["x", ":", "x:", "!", "/"])),
        _ => {
            // One character left out, twice, or another one.
            let mut c: Vec<char> = format!("tag:yaml.org,2002:{end}").chars().collect();
            let k = r.below(c.len());
            match r.below(3) {
                0 => {
                    c.remove(k);
                }
                1 => c.insert(k, c[k]),
                _ => c[k] = *r.pick(&['a', ':', '!', 'T', '0', '%', '-']),
            }
            c.into_iter().collect()
        }
    }
}
pub fn tag(r: &mut Rng) -> String {
    match r.below(17) {
        16 => near_tag(r),
        0 => "!".into(),
        1 => "!local".into(),
        2 => "tag:yaml.org,2002:str".into(),
        3 => "tag:yaml.org,2002:int".into(),
        4 => "tag:yaml.org,2002:seq".into(),
        5 => "tag:yaml.org,2002:map".into(),
        6 => "tag:yaml.org,2002:".into(),
        7 => "tag:example.com,2000:app/foo".into(),
        8 => "!a!b".into(),
        9 => "x".into(),
        10 => format!("!{}", word(r)),
        11 => format!("tag:yaml.org,2002:{}", word(r)),
        12 => {
            let c = char::from_u32(r.range(0x20, 0x7e) as u32).unwrap();
            format!("{}a{c}b", r.pick(&["!", "tag:", "tag:yaml.org,2002:", ""]))
        }
        13 => {
            let c = *r.pick(CHARS);
            format!("{}{c}", r.pick(&["!", "tag:x:", "tag:yaml.org,2002:", ""]))
        }
        14 => "tag:h0,2000:foo".into(),
        _ => {
            let n = edge_len(r);
            format!("!{}", "t".repeat(n + 1))
        }
    }
}

/// A scalar value. Classes are chosen to reach every branch of scalar analysis and writing.
pub fn value(r: &mut Rng) -> String {
    match r.below(22) {
        0 => String::new(),
        1 | 2 => word(r),
        3 => {
            let n = r.range(1, 6);
            (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
        }
        4 => {
            let n = r.range(3, 60);
            (0..n).map(|_| word(r)).collect::<Vec<_>>().join(" ")
        }
        5 | 6 => {
            let n = r.range(1, 12);
            (0..n).map(|_| *r.pick(CHARS)).collect()
        }
        7 => {
            let n = r.range(1, 6);
            (0..n).map(|_| *r.pick(&[" ", "\n", "a", "b c", "\n\n", "  ", "\t", "x"])).collect()
        }
        8 => {
            let n = r.range(1, 10);
            (0..n).map(|_| *r.pick(&["a", "b b", " ", "\n", "\r", "\r\n", "\u{85}", "\u{2028}", "\u{2029}", "é"])).collect()
        }
        9 => (*r.pick(&[
            "-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "- ", "? ", ": ", "---", "...", "--- a", "... a", "---\n", "a: b", "a #b", "a#b", ":a", "a:", "-a", "?a", "~", "null", "<<", "=", "!x", "&x", "*x", "%x",
            "a, b", "[a", "a]", "{a", "a}", " a", "a ", "\na", "a\n", "\n", " ", "\t", "a\tb", "\ta", "a\t", "'a'", "\"a\"", "a'b", "a\"b", "a\\b", "\\", "a\nb", "a\n\nb", "a \nb", "a\n b", " \n", "\n ", "a\n\n", "\n\na", "#\n", "a\n#b", "a\n---\nb", "a\n...\nb", "\u{feff}", "\u{feff}a", "a\u{feff}b", "\u{a0}", "\u{85}", "\u{2028}a", "a\u{2029}", "\u{0}", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\u{fffe}", "\u{ffff}", "\u{7eff}", "緿", "\u{10ffff}",
        ])).to_string(),
        10 => {
            let c = char::from_u32(r.below(0x110000) as u32).unwrap_or('\u{fffd}');
            format!("{}{c}{}", r.pick(&["", "a", " ", "\n"]), r.pick(&["", "b", " ", "\n"]))
        }
        11 => {
            let c = char::from_u32(r.below(0x300) as u32).unwrap_or('x');
            format!("{}{c}{}", r.pick(&["", "a", "é"]), r.pick(&["", "b", "1"]))
        }
        12 => {
            // leading blank + long
            let n = r.range(1, 40);
            let mut s = (*r.pick(&["", " ", "  ", "\n", "\n ", "\t"])).to_string();
            for _ in 0..n {
                s.push_str(&word(r));
                s.push_str(*r.pick(&[" ", " ", " ", "  ", "\n", "\n\n", " \n", "\n "]));
            }
            s
        }
        13 => {
            let n = edge_len(r);
            r.pick(&["a", "é", "漢", "😀", "a ", " ", "\n", "a\n"]).repeat(n)
        }
        14 => {
            // long words to defeat folding
            let n = r.range(1, 12);
            (0..n)
                .map(|_| {
                    let k = r.range(1, 90);
                    "w".repeat(k)
                })
                .collect::<Vec<_>>()
                .join(*r.pick(&[" ", "  ", "\n", " \n", "\n\n", "\n "]))
        }
        15 => {
            let a = word(r);
            let b = word(r);
            format!("{a}{}{b}", r.pick(&[": ", ":", " #", "#", ", ", "\n", "\n- ", "\n# ", " : ", "\t", "\\", "\"", "'", "''", "\u{a0}", "\n\n\n"]))
        }
        16 => {
            if r.chance(1, 30) {
                // around the output buffer
                let n = 16384 * r.range(1, 2) - r.below(40);
                let f = *r.pick(&["a", "é", "漢", "😀", "ab ", "\u{1}", "'", "\"", "a\n"]);
                f.repeat(n / f.len() + 1)
            } else {
                "text\nmore text\n".into()
            }
        }
        17 => {
            let n = r.range(1, 8);
            (0..n).map(|_| char::from(r.below(128) as u8)).collect()
        }
        18 => {
            // literal-like blocks with structure
            let n = r.range(1, 7);
            (0..n).map(|_| format!("{}{}{}", r.pick(&["", "", " ", "  ", "\t"]), r.pick(&["x", "x y z", "", "#c", "- q", "k: v"]), r.pick(&["\n", "\n", "\n\n", "\n\n\n", " \n"]))).collect()
        }
        19 => {
            // trailing newlines
            let w = word(r);
            format!("{w}{}", "\n".repeat(r.below(5)))
        }
        _ => {
            let w = word(r);
            format!("{w} {w}")
        }
    }
}

pub struct EvGen<'a> {
    pub r: &'a mut Rng,
    pub out: Vec<Ev>,
    anchors: Vec<String>,
    budget: i32,
    n: usize,
    nice: bool,
    bare: bool,
    /// Prefixes of the document's directives.
    prefixes: Vec<String>,
}

impl EvGen<'_> {
    fn anchor(&mut self) -> Option<String> {
        if self.r.chance(1, 8) {
            if !self.nice && !self.anchors.is_empty() && self.r.chance(1, 12) {
                return Some(self.r.pick(&self.anchors).clone());
            }
            self.n += 1;
            let a = format!("{}{}", anchor_name(self.r), self.n);
            self.anchors.push(a.clone());
            Some(a)
        } else {
            None
        }
    }
    fn tag(&mut self) -> Option<String> {
        let declared = !self.prefixes.is_empty();
        if self.r.chance(1, if declared { 2 } else { 6 }) {
            Some(if declared && self.r.chance(2, 3) {
                let p = self.r.pick(&self.prefixes).clone();
                let s = if self.nice { *self.r.pick(&["x", "x", "app/x", "x-y.z"]) } else { *self.r.pick(&["x", "x", "", "app/x", "é", "a!b", "%41", ",[]", "x y", "-", "!", "#"]) };
                p + s
            } else if self.nice {
                (*self.r.pick(&["!local", "tag:yaml.org,2002:int", "tag:yaml.org,2002:str", "tag:example.com,2000:x", "!a/b", "tag:h0,2000:foo"])).to_string()
            } else {
                tag(self.r)
            })
        } else {
            None
        }
    }
    fn node(&mut self, depth: usize, key: bool) {
        self.budget -= 1;
        if !self.anchors.is_empty() && self.r.chance(1, 12) {
            let a = self.r.pick(&self.anchors).clone();
            self.out.push(Ev::Alias(a));
            return;
        }
        let pcol = if key { 8 } else { 2 };
        if depth == 0 || self.budget <= 0 || self.r.below(pcol) > 0 {
            let anchor = self.anchor();
            let tag = self.tag();
            let value = value(self.r);
            let (plain, quoted) = match self.r.below(8) {
                0 => (false, true),
                1 => (true, false),
                2 if tag.is_some() => (false, false),
                3 if tag.is_some() => (true, true),
                _ if tag.is_some() => (false, false),
                _ => (true, true),
            };
            let style = if self.r.chance(1, 3) { 0 } else { self.r.below(6) as u8 };
            self.out.push(Ev::Scalar { anchor, tag, value, plain, quoted, style });
            return;
        }
        let anchor = self.anchor();
        let tag = self.tag();
        let implicit = tag.is_none() || self.r.chance(1, 6);
        let style = self.r.below(3) as u8;
        let n = self.r.size(6);
        if self.r.bool() {
            self.out.push(Ev::SeqStart { anchor, tag, implicit, style });
            for _ in 0..n {
                self.node(depth - 1, false);
            }
            self.out.push(Ev::SeqEnd);
        } else {
            self.out.push(Ev::MapStart { anchor, tag, implicit, style });
            for _ in 0..n {
                self.node(depth - 1, true);
                self.node(depth - 1, false);
            }
            self.out.push(Ev::MapEnd);
        }
    }
    fn doc(&mut self) {
        self.anchors.clear();
        let ver = if !self.bare && self.r.chance(1, 8) { Some((1, *self.r.pick(&[1, 2]))) } else { None };
        let mut tags = vec![];
        if !self.bare && self.r.chance(1, 5) {
            for i in 0..self.r.range(1, 4) {
                tags.push(match self.r.below(8) {
                    6 => ((*self.r.pick(&["!e!", "!E!", "!ee!", "!e-_9!", "!0!"])).to_string(), (*self.r.pick(&["tag:h", "tag:h0", "tag:example.com", "tag:yaml.org,2002:", "!", "!l"])).to_string()),
                    7 => ((*self.r.pick(&["!", "!!", "!e1!", "!E1!"])).to_string(), format!("tag:h{i},2000:")),
                    0 => ("!".to_string(), "tag:example.com,2000:".to_string()),
                    1 => ("!!".to_string(), "tag:yaml.org,2002:".to_string()),
                    2 => (format!("!e{i}!"), "tag:example.com,2000:app/".to_string()),
                    3 => (format!("!p{i}!"), "!local-".to_string()),
                    4 => {
                        let c = *self.r.pick(CHARS);
                        (format!("!q{i}!"), format!("tag:{c}"))
                    }
                    _ => (format!("!h{i}!"), format!("tag:h{i},2000:")),
                });
            }
            let mut seen = vec![];
            tags.retain(|t| {
                let new = !seen.contains(&t.0);
                seen.push(t.0.clone());
                new
            });
        }
        let nice = |p: &str| p.chars().all(|c| c.is_ascii_alphanumeric() || ":/.,-!".contains(c));
        self.prefixes = tags.iter().map(|t| t.1.clone()).filter(|p| !self.nice || nice(p)).collect();
        let implicit = self.r.bool();
        self.out.push(Ev::DocStart { ver, tags, implicit });
        let d = self.r.below(6);
        self.node(d, false);
        let implicit = self.r.bool();
        self.out.push(Ev::DocEnd { implicit });
    }
}

/// A well-formed event stream. `nice` restricts tags to ones every YAML processor can write.
pub fn stream(r: &mut Rng, budget: i32, nice: bool) -> Vec<Ev> {
    let docs = match r.below(10) {
        0 => 0,
        1 | 2 => r.range(2, 5),
        _ => 1,
    };
    let enc = if r.chance(1, 4) { r.below(4) as u8 } else { 1 };
    let bare = r.bool();
    let mut g = EvGen { r, out: vec![Ev::StreamStart(enc)], anchors: vec![], budget, n: 0, nice, bare, prefixes: vec![] };
    for _ in 0..docs {
        g.doc();
    }
    g.out.push(Ev::StreamEnd);
    g.out
}

fn rand_event(r: &mut Rng) -> Ev {
    match r.below(10) {
        0 => Ev::StreamStart(r.below(4) as u8),
        1 => Ev::StreamEnd,
        2 => Ev::DocStart {
            ver: match r.below(6) {
                0 => Some((1, 1)),
                1 => Some((1, 2)),
                2 => Some((1, 3)),
                3 => Some((2, 0)),
                4 => Some((-1, 0)),
                _ => None,
            },
            tags: (0..r.below(3)).map(|_| bad_tagdir(r)).collect(),
            implicit: r.bool(),
        },
        3 => Ev::DocEnd { implicit: r.bool() },
        4 => Ev::Alias(bad_anchor(r)),
        5 => Ev::SeqStart { anchor: bad_opt(r, true), tag: bad_opt(r, false), implicit: r.bool(), style: r.below(3) as u8 },
        6 => Ev::SeqEnd,
        7 => Ev::MapStart { anchor: bad_opt(r, true), tag: bad_opt(r, false), implicit: r.bool(), style: r.below(3) as u8 },
        8 => Ev::MapEnd,
        _ => Ev::Scalar { anchor: bad_opt(r, true), tag: bad_opt(r, false), value: value(r), plain: r.bool(), quoted: r.bool(), style: r.below(6) as u8 },
    }
}
fn bad_opt(r: &mut Rng, anchor: bool) -> Option<String> {
    if r.bool() {
        return None;
    }
    Some(if anchor { bad_anchor(r) } else { bad_tag(r) })
}
pub fn bad_anchor(r: &mut Rng) -> String {
    match r.below(7) {
        0 => String::new(),
        1 => "a b".into(),
        2 => "é".into(),
        3 => r.pick(CHARS).to_string(),
        4 => format!("a{}", r.pick(CHARS)),
        _ => anchor_name(r),
    }
}
pub fn bad_tag(r: &mut Rng) -> String {
    match r.below(6) {
        0 => String::new(),
        1 => r.pick(CHARS).to_string(),
        2 => "é".into(),
        _ => tag(r),
    }
}
fn bad_tagdir(r: &mut Rng) -> (String, String) {
    let h = match r.below(9) {
        0 => "".to_string(),
        1 => "a".into(),
        2 => "!a".into(),
        3 => "a!".into(),
        4 => "!é!".into(),
        5 => "!".into(),
        6 => "!!".into(),
        7 => format!("!{}!", r.pick(CHARS)),
        _ => "!e!".into(),
    };
    let p = match r.below(5) {
        0 => "".to_string(),
        1 => "é".into(),
        2 => r.pick(CHARS).to_string(),
        _ => "tag:x".into(),
    };
    (h, p)
}

/// Damage a stream: wrong order, missing, duplicated or invalid events.
pub fn perturb(r: &mut Rng, evs: &mut Vec<Ev>) {
    for _ in 0..r.range(1, 3) {
        let p = r.below(evs.len() + 1);
        match r.below(7) {
            0 if p < evs.len() => {
                evs.remove(p);
            }
            1 if p < evs.len() => {
                let e = evs[p].clone();
                evs.insert(p, e);
            }
            2 if p + 1 < evs.len() => evs.swap(p, p + 1),
            3 => {
                let e = rand_event(r);
                evs.insert(p, e)
            }
            4 if p < evs.len() => evs[p] = rand_event(r),
            5 if p < evs.len() => match &mut evs[p] {
                Ev::Scalar { anchor, tag, plain, quoted, .. } => match r.below(4) {
                    0 => *anchor = Some(bad_anchor(r)),
                    1 => *tag = Some(bad_tag(r)),
                    2 => {
                        *tag = None;
                        *plain = false;
                        *quoted = false;
                    }
                    _ => *plain = !*plain,
                },
                Ev::SeqStart { anchor, tag, implicit, .. } | Ev::MapStart { anchor, tag, implicit, .. } => match r.below(4) {
                    0 => *anchor = Some(bad_anchor(r)),
                    1 => *tag = Some(bad_tag(r)),
                    2 => {
                        *tag = None;
                        *implicit = false;
                    }
                    _ => *implicit = !*implicit,
                },
                Ev::Alias(a) => *a = bad_anchor(r),
                Ev::DocStart { ver, tags, .. } => {
                    if r.bool() {
                        *ver = Some((r.below(3) as i32, r.below(4) as i32));
                    } else {
                        tags.push(bad_tagdir(r));
                        if r.bool() {
                            let t = tags[r.below(tags.len())].clone();
                            tags.push(t);
                        }
                    }
                }
                _ => {}
            },
            _ => evs.truncate(p),
        }
        if evs.is_empty() {
            break;
        }
    }
}

/// Streams aimed at particular emitter limits.
pub fn boundary(r: &mut Rng) -> Vec<Ev> {
    let sc = |v: &str, style: u8| Ev::Scalar { anchor: None, tag: None, value: v.to_string(), plain: true, quoted: true, style };
    let mut out = vec![Ev::StreamStart(1)];
    let ds = |out: &mut Vec<Ev>, imp: bool| out.push(Ev::DocStart { ver: None, tags: vec![], implicit: imp });
    match r.below(10) {
        0 => {
            // simple key length 128
            let n = r.range(118, 136);
            let f = *r.pick(&["k", "é", "漢"]);
            let reps = n / f.len() + r.below(2);
            ds(&mut out, true);
            let anchor = if r.bool() { Some("x".repeat(r.range(1, 12))) } else { None };
            let tag = if r.chance(1, 3) { Some(format!("!{}", "t".repeat(r.range(1, 12)))) } else { None };
            let flow = r.below(3) as u8;
            out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: flow });
            out.push(Ev::Scalar { anchor, tag, value: f.repeat(reps), plain: true, quoted: true, style: r.below(6) as u8 });
            out.push(sc("v", 0));
            out.push(sc("b", 0));
            out.push(sc("v", 0));
            out.push(Ev::MapEnd);
            out.push(Ev::DocEnd { implicit: true });
        }
        1 => {
            let d = if r.chance(1, 10) { r.range(100, 400) } else { r.range(5, 80) };
            ds(&mut out, true);
            let kinds: Vec<(bool, u8)> = (0..d).map(|_| (r.bool(), if r.chance(1, 40) { 2 } else { 1 })).collect();
            for (m, st) in &kinds {
                if *m {
                    out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: *st });
                    out.push(sc("k", 0));
                } else {
                    out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: *st });
                }
            }
            out.push(sc(&value(r), r.below(6) as u8));
            for (m, _) in kinds.iter().rev() {
                out.push(if *m { Ev::MapEnd } else { Ev::SeqEnd });
            }
            out.push(Ev::DocEnd { implicit: true });
        }
        2 => {
            // total output near the 16K buffer, then small items
            ds(&mut out, true);
            out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 + r.below(2) as u8 });
            let n = 16384 - r.below(60);
            let f = *r.pick(&["a", "é", "漢", "😀", "ab "]);
            out.push(sc(&f.repeat(n / f.len()), r.below(6) as u8));
            for _ in 0..r.range(1, 8) {
                out.push(sc(&value(r), r.below(6) as u8));
            }
            out.push(Ev::SeqEnd);
            out.push(Ev::DocEnd { implicit: true });
        }
        3 => {
            // many documents with mixed endings
            for _ in 0..r.range(2, 30) {
                let tags = if r.chance(1, 5) { vec![("!e!".to_string(), "tag:e:".to_string())] } else { vec![] };
                let ver = if r.chance(1, 6) { Some((1, 1)) } else { None };
                out.push(Ev::DocStart { ver, tags, implicit: r.bool() });
                let v = *r.pick(&["", "a", "a\n", "a\n\n", "tag", "--- x", "\n"]);
                let tag = if r.chance(1, 4) { Some("tag:e:foo".to_string()) } else { None };
                out.push(Ev::Scalar { anchor: None, tag, value: v.to_string(), plain: true, quoted: true, style: r.below(6) as u8 });
                out.push(Ev::DocEnd { implicit: r.bool() });
            }
        }
        4 => {
            // wide flow collections
            ds(&mut out, r.bool());
            let m = r.bool();
            out.push(if m { Ev::MapStart { anchor: None, tag: None, implicit: true, style: 2 } } else { Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 2 } });
            for _ in 0..r.range(5, 120) {
                out.push(sc(&word(r), r.below(4) as u8));
                if m {
                    out.push(sc(&word(r), r.below(4) as u8));
                }
            }
            out.push(if m { Ev::MapEnd } else { Ev::SeqEnd });
            out.push(Ev::DocEnd { implicit: r.bool() });
        }
        5 => {
            // empty collections everywhere
            ds(&mut out, true);
            out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 });
            for _ in 0..r.range(1, 8) {
                for _ in 0..2 {
                    let an = if r.chance(1, 4) { Some(anchor_name(r)) } else { None };
                    let tg = if r.chance(1, 4) { Some("!t".to_string()) } else { None };
                    let st = r.below(3) as u8;
                    match r.below(3) {
                        0 => {
                            out.push(Ev::SeqStart { anchor: an, implicit: tg.is_none(), tag: tg, style: st });
                            out.push(Ev::SeqEnd);
                        }
                        1 => {
                            out.push(Ev::MapStart { anchor: an, implicit: tg.is_none(), tag: tg, style: st });
                            out.push(Ev::MapEnd);
                        }
                        _ => out.push(Ev::Scalar { anchor: an, plain: tg.is_none(), quoted: tg.is_none(), tag: tg, value: String::new(), style: st }),
                    }
                }
            }
            out.push(Ev::MapEnd);
            out.push(Ev::DocEnd { implicit: true });
        }
        6 => {
            // one scalar, every style, in every position
            let v = value(r);
            let st = r.below(6) as u8;
            ds(&mut out, r.bool());
            match r.below(5) {
                0 => out.push(sc(&v, st)),
                1 => {
                    out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 + r.below(2) as u8 });
                    out.push(sc(&v, st));
                    out.push(sc("z", 0));
                    out.push(Ev::SeqEnd);
                }
                2 => {
                    out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 + r.below(2) as u8 });
                    out.push(sc(&v, st));
                    out.push(sc("z", 0));
                    out.push(Ev::MapEnd);
                }
                3 => {
                    out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 + r.below(2) as u8 });
                    out.push(sc("z", 0));
                    out.push(sc(&v, st));
                    out.push(sc("y", 0));
                    out.push(sc(&v, r.below(6) as u8));
                    out.push(Ev::MapEnd);
                }
                _ => {
                    out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 });
                    out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 });
                    out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 });
                    out.push(sc("k", 0));
                    out.push(sc(&v, st));
                    out.push(Ev::MapEnd);
                    out.push(Ev::SeqEnd);
                    out.push(sc(&v, st));
                    out.push(Ev::SeqEnd);
                }
            }
            out.push(Ev::DocEnd { implicit: r.bool() });
        }
        7 => {
            // properties in every position
            ds(&mut out, r.bool());
            out.push(Ev::MapStart { anchor: Some("m".into()), tag: Some(tag(r)), implicit: r.bool(), style: r.below(3) as u8 });
            for i in 0..r.range(1, 5) {
                let t = if r.bool() { Some(tag(r)) } else { None };
                let imp = t.is_none() || r.bool();
                out.push(Ev::Scalar { anchor: Some(format!("a{i}")), plain: imp, quoted: imp, tag: t, value: value(r), style: r.below(6) as u8 });
                if r.bool() {
                    out.push(Ev::Alias(format!("a{}", r.below(i + 1))));
                } else {
                    let t = if r.bool() { Some(tag(r)) } else { None };
                    out.push(Ev::SeqStart { anchor: Some(format!("s{i}")), implicit: t.is_none() || r.bool(), tag: t, style: r.below(3) as u8 });
                    for _ in 0..r.below(3) {
                        out.push(Ev::Alias(format!("a{}", r.below(i + 1))));
                    }
                    out.push(Ev::SeqEnd);
                }
            }
            out.push(Ev::MapEnd);
            out.push(Ev::DocEnd { implicit: r.bool() });
        }
        8 => {
            // complex keys
            ds(&mut out, true);
            out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 1 + r.below(2) as u8 });
            for _ in 0..r.range(1, 4) {
                let st = 1 + r.below(2) as u8;
                out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: st });
                for _ in 0..r.below(4) {
                    out.push(sc(&word(r), 0));
                }
                out.push(Ev::SeqEnd);
                out.push(sc(&value(r), r.below(6) as u8));
                out.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: st });
                out.push(sc("a", 0));
                out.push(sc("b", 0));
                out.push(Ev::MapEnd);
                out.push(sc(&value(r), r.below(6) as u8));
                out.push(sc(&value(r), 3 + r.below(3) as u8));
                out.push(sc("end", 0));
            }
            out.push(Ev::MapEnd);
            out.push(Ev::DocEnd { implicit: true });
        }
        _ => {
            // tags against directives
            let mut tags = vec![];
            for i in 0..r.range(1, 5) {
                tags.push((format!("!h{i}!"), format!("tag:{}", "x".repeat(i))));
            }
            out.push(Ev::DocStart { ver: None, tags, implicit: r.bool() });
            out.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 });
            for _ in 0..r.range(1, 6) {
                let t = format!("tag:{}{}", "x".repeat(r.below(7)), r.pick(&["", "y", "é", " ", "!", "%", "~", "/"]));
                out.push(Ev::Scalar { anchor: None, tag: Some(t), value: word(r), plain: false, quoted: false, style: r.below(6) as u8 });
            }
            out.push(Ev::SeqEnd);
            out.push(Ev::DocEnd { implicit: true });
        }
    }
    out.push(Ev::StreamEnd);
    out
}

/// Something repeated a chosen number of times.
pub fn sized(r: &mut Rng) -> Vec<Ev> {
    let sc = |v: &str, style: u8| Ev::Scalar { anchor: None, tag: None, value: v.to_string(), plain: true, quoted: true, style };
    let mut out = vec![Ev::StreamStart(1)];
    let count = crate::gen_yaml::count;
    let style = |r: &mut Rng| r.below(6) as u8;
    let coll = |r: &mut Rng| r.below(3) as u8;
    let mut body: Vec<Ev> = vec![];
    let mut tags = vec![];
    match r.below(13) {
        0 => {
            // Documents.
            for k in 0..count(r, 20) {
                let tags = if r.chance(1, 3) { vec![("!e!".to_string(), format!("tag:e{}:", k % 3))] } else { vec![] };
                out.push(Ev::DocStart { ver: if r.chance(1, 4) { Some((1, 1)) } else { None }, tags, implicit: r.bool() });
                let t = if r.chance(1, 3) { Some("tag:e1:x".to_string()) } else { None };
                out.push(Ev::Scalar { anchor: None, tag: t, value: (*r.pick(&["", "a", "a\n", "a b", "a\n\n"])).into(), plain: true, quoted: true, style: style(r) });
                out.push(Ev::DocEnd { implicit: r.bool() });
            }
            out.push(Ev::StreamEnd);
            return out;
        }
        1 => {
            // Directives.
            let n = count(r, 20);
            tags = (0..n).map(|k| (format!("!e{k}!"), format!("tag:e{k}:"))).collect();
            body.push(Ev::SeqStart { anchor: None, tag: Some(format!("tag:e{}:s", r.below(n))), implicit: false, style: coll(r) });
            for _ in 0..4 {
                body.push(Ev::Scalar { anchor: None, tag: Some(format!("tag:e{}:s", r.below(n + 1))), value: "v".into(), plain: false, quoted: false, style: style(r) });
            }
            body.push(Ev::SeqEnd);
        }
        2 => {
            // Items.
            let st = coll(r);
            body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: st });
            let k = style(r);
            let v = value(r);
            for _ in 0..count(r, 4 + v.len()) {
                body.push(sc(&v, k));
            }
            body.push(Ev::SeqEnd);
        }
        3 => {
            // Pairs.
            let st = coll(r);
            body.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: st });
            let k = style(r);
            let v = value(r);
            for n in 0..count(r, 8 + v.len()) {
                body.push(sc(&format!("k{n}"), 0));
                body.push(sc(&v, k));
            }
            body.push(Ev::MapEnd);
        }
        4 => {
            // Nested collections, as items, values or keys, and something after them at each level.
            let n = count(r, 12).min(if r.chance(1, 100) { 600 } else { 120 });
            let mode = r.below(6);
            let st = coll(r);
            let mut ends = vec![];
            for _ in 0..n {
                let map = match mode {
                    0 => true,
                    1 | 2 => false,
                    _ => r.bool(),
                };
                let style = if mode == 5 { coll(r) } else { st };
                if map {
                    body.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style });
                    let as_key = r.chance(1, 5);
                    if !as_key {
                        body.push(sc("k", 0));
                    }
                    ends.push((true, as_key));
                } else {
                    body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style });
                    ends.push((false, r.chance(1, 4)));
                }
            }
            body.push(sc(&value(r), r.below(6) as u8));
            for (map, more) in ends.into_iter().rev() {
                if more {
                    body.push(sc("x", 0));
                }
                body.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
            }
        }
        5..=8 => {
            // One long scalar between short ones.
            let unit = *r.pick(&["a", "word ", " ", "\n", "a\n", "a \n", " a\n", "\n ", "é", "漢", "😀", "\t", "'", "\"", "\\", "\u{7f}", "\u{85}", "\u{2028}", "a  b", "a b\n\n", "-", "#", ": ", "\u{feff}", "\r", "\r\n", "\0"]);
            let n = count(r, unit.len());
            let v = format!("{}{}{}", *r.pick(&["", "a", " ", "\n"]), unit.repeat(n), *r.pick(&["", "b", " ", "\n", "\n\n", " b"]));
            let map = r.bool();
            let st = coll(r);
            if map {
                body.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: st });
                if r.bool() {
                    body.push(sc("k", 0));
                }
            } else {
                body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: st });
            }
            let k = style(r);
            body.push(sc(&v, k));
            let odd = body.len() % 2 == 0;
            if map && odd {
                body.push(sc("x", 0));
            } else if !map {
                body.push(sc("y", 0));
            }
            body.push(if map { Ev::MapEnd } else { Ev::SeqEnd });
        }
        9 => {
            // Long names.
            let a = "a".repeat(count(r, 1));
            let t = format!("!{}", r.pick(&["t", "é", "%", "!", "t/"]).repeat(count(r, 1)));
            body.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: coll(r) });
            body.push(Ev::Scalar { anchor: if r.bool() { Some(a.clone()) } else { None }, tag: if r.bool() { Some(t.clone()) } else { None }, value: value(r), plain: false, quoted: false, style: style(r) });
            body.push(sc("v", 0));
            if r.bool() {
                body.push(Ev::Alias(a.clone()));
                body.push(Ev::SeqStart { anchor: Some(a), tag: Some(t), implicit: false, style: coll(r) });
                body.push(Ev::SeqEnd);
            }
            body.push(Ev::MapEnd);
        }
        10 => {
            // Anchors and aliases.
            let n = count(r, 10);
            body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: coll(r) });
            for k in 0..n {
                body.push(Ev::Scalar { anchor: Some(format!("a{k}")), tag: None, value: "v".into(), plain: true, quoted: true, style: 0 });
                if r.chance(1, 4) {
                    body.push(Ev::Alias(format!("a{}", r.below(k + 1))));
                }
            }
            body.push(Ev::SeqEnd);
        }
        11 => {
            // Empty collections.
            body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: coll(r) });
            for _ in 0..count(r, 4) {
                if r.bool() {
                    body.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: coll(r) });
                    body.push(Ev::SeqEnd);
                } else {
                    body.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: coll(r) });
                    body.push(Ev::MapEnd);
                }
            }
            body.push(Ev::SeqEnd);
        }
        _ => {
            // A long directive.
            let n = count(r, 1);
            let p = format!("tag:{}", "x".repeat(n));
            tags.push((if r.bool() { "!e!".into() } else { format!("!{}!", "h".repeat(count(r, 1))) }, p.clone()));
            body.push(Ev::Scalar { anchor: None, tag: Some(p + "y"), value: "v".into(), plain: false, quoted: false, style: style(r) });
        }
    }
    out.push(Ev::DocStart { ver: None, tags, implicit: r.bool() });
    out.extend(body);
    out.push(Ev::DocEnd { implicit: r.bool() });
    out.push(Ev::StreamEnd);
    out
}

pub fn any_stream(r: &mut Rng) -> (Vec<Ev>, &'static str) {
    match r.below(20) {
        12 => (sized(r), "sized"),
        0..=10 => {
            let b = if r.chance(1, 40) { 400 } else { 25 };
            (stream(r, b, false), "tree")
        }
        11 => (stream(r, 25, true), "tree-nice"),
        _ => (boundary(r), "boundary"),
    }
}
