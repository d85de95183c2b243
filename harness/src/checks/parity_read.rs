//! C02 events, C03 tokens, C04 errors, C05 marks: the reading side against libyaml.
use crate::cmp::*;
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sut::{self, ChunkReader};
use crate::{corpus, refl, tri};

pub fn seeds() -> Vec<Input> {
    corpus::SEEDS
        .iter()
        .map(|s| {
            let mut i = Input::new("seed");
            i.bytes = s.as_bytes().to_vec();
            i
        })
        .collect()
}

/// aux[0]: forced encoding (0 none).
pub fn gen_read(r: &mut Rng, t: Tier) -> Input {
    if r.chance(1, if t == Tier::Quick { 400 } else { 150 }) {
        let (s, l) = gen_yaml::any_text(r, true);
        let mut i = Input::new(l);
        i.bytes = s.into_bytes();
        return i;
    }
    let (b, l) = gen_yaml::any_bytes(r);
    let mut i = Input::new(l);
    i.bytes = b;
    if r.chance(1, 40) {
        i.aux = vec![r.below(4) as u64];
        if i.aux[0] >= 2 && r.chance(3, 4) {
            let s = String::from_utf8_lossy(&i.bytes).into_owned();
            i.bytes = gen_yaml::to_utf16(&s, i.aux[0] == 3, r.bool());
        }
    }
    i
}

pub const READ_RULE: &str = "inputs are drawn from: a corpus of ~330 YAML texts, a grammar generator, boundary shapes around internal limits (simple-key length, buffer sizes, indentation, directives, chomping), token and character soup, mutations and concatenations of these, UTF-16 and damaged encodings; a case is non-trivial when at least one document event (or an error after one) was produced; distinct by input";

fn nontrivial(t: &EvTrace) -> bool {
    t.items.len() > 2 || (t.items.len() == 2 && t.err.is_some())
}

pub struct EventParity;
impl Check for EventParity {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        READ_RULE
    }
    fn plan(&self) -> Plan {
        Plan { quick: 2_250_000, thorough: 30_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        gen_read(r, t)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let enc = (i.a(0) % 4) as u8;
        let b = cx.reference(|| refl::parse(&i.bytes, enc));
        if let Some(w) = exempt(&i.bytes, &b) {
            return V::Skip(w);
        }
        let a = match sut::parse_with(ChunkReader::whole(&i.bytes), enc, i.bytes.len()) {
            Ok(a) => a,
            Err(p) => return bad("panic", p),
        };
        count_events(cx, &a);
        tri!(items("event", &a, &b, |x, y| x.v == y.v));
        if a.err.is_some() != b.err.is_some() && !is_reader(&a.err) && !is_reader(&b.err) {
            return bad("stream ends differently from libyaml", format!("got {}\nlibyaml {}", short(&a.err), short(&b.err)));
        }
        V::Ok(nontrivial(&a))
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec![
            "the vendored unsafe-libyaml 0.2.11 is libyaml",
            "inputs whose tag escapes decode to bytes that are not UTF-8 or NUL have no verdict (a Rust String cannot hold what libyaml returns)",
        ]
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("events", 1000)]
    }
}

pub struct TokenParity;
impl Check for TokenParity {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        READ_RULE
    }
    fn plan(&self) -> Plan {
        Plan { quick: 2_250_000, thorough: 30_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        gen_read(r, t)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let enc = (i.a(0) % 4) as u8;
        let b = cx.reference(|| refl::scan(&i.bytes, enc));
        if let Some(w) = exempt(&i.bytes, &b) {
            return V::Skip(w);
        }
        let a = match sut::scan_with(ChunkReader::whole(&i.bytes), enc, i.bytes.len()) {
            Ok(a) => a,
            Err(p) => return bad("panic", p),
        };
        cx.count("tokens", a.items.len() as u64);
        cx.shape(tok_shape(&a));
        tri!(items("token", &a, &b, |x, y| x == y));
        tri!(err_same(&a.err, &b.err, true));
        V::Ok(a.items.len() > 2 || a.err.is_some())
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("tokens", 1000)]
    }
}
pub fn tok_shape(a: &TokTrace) -> u64 {
    let v: Vec<u8> = a
        .items
        .iter()
        .take(200)
        .map(|t| match &t.v {
            Tok::StreamStart(_) => 0,
            Tok::StreamEnd => 1,
            Tok::Version(..) => 2,
            Tok::TagDir(..) => 3,
            Tok::DocStart => 4,
            Tok::DocEnd => 5,
            Tok::BlockSeqStart => 6,
            Tok::BlockMapStart => 7,
            Tok::BlockEnd => 8,
            Tok::FlowSeqStart => 9,
            Tok::FlowSeqEnd => 10,
            Tok::FlowMapStart => 11,
            Tok::FlowMapEnd => 12,
            Tok::BlockEntry => 13,
            Tok::FlowEntry => 14,
            Tok::Key => 15,
            Tok::Value => 16,
            Tok::Alias(_) => 17,
            Tok::Anchor(_) => 18,
            Tok::Tag(..) => 19,
            Tok::Scalar(_, s) => 32 + s,
        })
        .collect();
    fnv(&v) ^ a.err.as_ref().map_or(0, |e| fnv(e.problem.as_bytes()))
}

pub struct ErrorParity;
impl Check for ErrorParity {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        "as C02, weighted towards damaged and mutated inputs; a case is non-trivial when the input is rejected; distinct by input. Observed counters list every distinct error message seen"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_750_000, thorough: 24_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i = gen_read(r, t);
        if r.chance(1, 5) {
            i.bytes = gen_yaml::mistakes(r).into_bytes();
            i.label = "mistakes".into();
            i.aux.clear();
        } else if r.bool() {
            // A local slip in an otherwise plausible text.
            if let Ok(s) = String::from_utf8(i.bytes.clone()) {
                i.bytes = gen_yaml::mutate(r, &s).into_bytes();
                i.label.push_str("+slip");
            }
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let enc = (i.a(0) % 4) as u8;
        let (b, bl, bs) = cx.reference(|| (refl::parse(&i.bytes, enc), refl::load(&i.bytes, enc), refl::scan(&i.bytes, enc)));
        if let Some(w) = exempt(&i.bytes, &b).or(exempt(&i.bytes, &bs)) {
            return V::Skip(w);
        }
        let n = i.bytes.len();
        let r = || ChunkReader::whole(&i.bytes);
        let (a, al, as_) = match (sut::parse_with(r(), enc, n), sut::load_with(r(), enc, n), sut::scan_with(r(), enc, n)) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (Err(p), _, _) | (_, Err(p), _) | (_, _, Err(p)) => return bad("panic", p),
        };
        for (which, x, y) in [("parse", &a.err, &b.err), ("load", &al.err, &bl.err), ("scan", &as_.err, &bs.err)] {
            match (x, y) {
                (Some(e), Some(f)) => {
                    cx.count(&format!("{:?}: {}{}", e.kind, e.problem, e.context.as_ref().map_or(String::new(), |c| format!(" / {c}"))), 1);
                    cx.shape(fnv(format!("{which} {:?} {} {:?} {}", e.kind, e.problem, e.context, kinds_shape(&a.items)).as_bytes()));
                    if e.kind == K::Reader && f.kind != K::Reader && n <= 16384 && malformed(&i.bytes, enc).is_none() {
                        return bad(format!("{which}: reader error where libyaml has none"), format!("{}\nlibyaml {}", e.text, short(f)));
                    }
                    if e.kind == K::Io {
                        return bad(format!("{which}: I/O error from an input that has none"), e.text.clone());
                    }
                    if e.kind == K::Reader && f.kind == K::Reader && e.problem == f.problem {
                        // Same routine: same place and value.
                        let want = format!("({})", f.text.replace(" value", ", value"));
                        if !e.text.ends_with(&want) {
                            return bad(format!("{which}: reader error differs from libyaml"), format!("{} vs {want}", e.text));
                        }
                    }
                }
                _ => {}
            }
            tri!(err_same(x, y, true));
        }
        V::Ok(a.err.is_some() || al.err.is_some())
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["texts of encoding errors may differ (the README says so); their kind may not"]
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![]
    }
}

/// Positions of every character by libyaml's rules: index (UTF-8 bytes) -> (line, column).
pub struct Places {
    pub at: std::collections::HashMap<u64, (u64, u64)>,
    pub len: u64,
}
pub fn places(text: &str) -> Places {
    let mut at = std::collections::HashMap::with_capacity(text.len() + 1);
    let (mut i, mut l, mut c) = (0u64, 0u64, 0u64);
    let mut it = text.chars().peekable();
    at.insert(0, (0, 0));
    while let Some(ch) = it.next() {
        i += ch.len_utf8() as u64;
        if ch == '\r' && it.peek() == Some(&'\n') {
            it.next();
            i += 1;
            l += 1;
            c = 0;
        } else if matches!(ch, '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}') {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
        at.insert(i, (l, c));
    }
    Places { at, len: i }
}

/// Decode as the reader should (encoding detection by byte order mark), without the mark itself.
pub fn decode(b: &[u8], enc: u8) -> Option<String> {
    let u16s = |b: &[u8], be: bool| -> Option<String> {
        if b.len() % 2 != 0 {
            return None;
        }
        let v: Vec<u16> = b.chunks(2).map(|c| if be { u16::from_be_bytes([c[0], c[1]]) } else { u16::from_le_bytes([c[0], c[1]]) }).collect();
        String::from_utf16(&v).ok()
    };
    match enc {
        1 => String::from_utf8(b.to_vec()).ok(),
        2 => u16s(b, false),
        3 => u16s(b, true),
        _ => {
            if b.starts_with(&[0xff, 0xfe]) {
                u16s(&b[2..], false)
            } else if b.starts_with(&[0xfe, 0xff]) {
                u16s(&b[2..], true)
            } else if b.starts_with(&[0xef, 0xbb, 0xbf]) {
                String::from_utf8(b[3..].to_vec()).ok()
            } else {
                String::from_utf8(b.to_vec()).ok()
            }
        }
    }
}

/// May this character appear in a stream?
pub fn allowed(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='~' | '\u{85}' | '\u{a0}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

/// Where the input stops being an acceptable character stream: byte offset and offending value
/// (a byte, a UTF-16 unit, a code point; -1 for a character cut off by the end).
pub fn malformed(b: &[u8], enc: u8) -> Option<(usize, i64, &'static str)> {
    let (enc, skip) = match enc {
        1..=3 => (enc, 0),
        _ if b.starts_with(&[0xff, 0xfe]) => (2, 2),
        _ if b.starts_with(&[0xfe, 0xff]) => (3, 2),
        _ if b.starts_with(&[0xef, 0xbb, 0xbf]) => (1, 3),
        _ => (1, 0),
    };
    let d = &b[skip..];
    if enc == 1 {
        let (text, tail) = match std::str::from_utf8(d) {
            Ok(t) => (t, None),
            Err(e) => {
                let v = e.valid_up_to();
                let t = std::str::from_utf8(&d[..v]).unwrap();
                (t, Some(if e.error_len().is_none() { (skip + v, -1, "cut") } else { (skip + v, i64::from(d[v]), "utf8") }))
            }
        };
        for (o, c) in text.char_indices() {
            if !allowed(c) {
                return Some((skip + o, c as i64, "char"));
            }
        }
        return tail;
    }
    let unit = |o: usize| if enc == 3 { u16::from_be_bytes([d[o], d[o + 1]]) } else { u16::from_le_bytes([d[o], d[o + 1]]) };
    let mut o = 0;
    while o < d.len() {
        if o + 2 > d.len() {
            return Some((skip + o, -1, "cut"));
        }
        let u = unit(o);
        if (0xd800..0xdc00).contains(&u) {
            if o + 4 > d.len() {
                return Some((skip + o, -1, "cut"));
            }
            let l = unit(o + 2);
            if !(0xdc00..0xe000).contains(&l) {
                return Some((skip + o, i64::from(u), "utf16"));
            }
            o += 4;
        } else if (0xdc00..0xe000).contains(&u) {
            return Some((skip + o, i64::from(u), "utf16"));
        } else {
            let c = char::from_u32(u32::from(u)).unwrap();
            if !allowed(c) {
                return Some((skip + o, c as i64, "char"));
            }
            o += 2;
        }
    }
    None
}

pub struct Marks;
impl Check for Marks {
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        READ_RULE
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        gen_read(r, t)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let enc = (i.a(0) % 4) as u8;
        let n = i.bytes.len();
        let (a, s) = match (sut::parse_with(ChunkReader::whole(&i.bytes), enc, n), sut::scan_with(ChunkReader::whole(&i.bytes), enc, n)) {
            (Ok(a), Ok(b)) => (a, b),
            (Err(p), _) | (_, Err(p)) => return bad("panic", p),
        };
        // Every mark is a real position of the text, and they come in order.
        if let Some(text) = decode(&i.bytes, enc) {
            let pl = places(&text);
            // At the end of the stream an unfinished line counts as finished.
            let end = pl.at.get(&pl.len).map(|e| (e.0 + 1, 0));
            let ok = |m: &Mk| pl.at.get(&m.i) == Some(&(m.l, m.c)) || (m.i == pl.len && Some((m.l, m.c)) == end);
            let mut marks = 0;
            for (k, t) in s.items.iter().enumerate() {
                marks += 2;
                if !ok(&t.s) || !ok(&t.e) || t.s.i > t.e.i {
                    return bad("a token mark is not a position of the input", format!("token #{k} {}", short(t)));
                }
                if k > 0 && t.s.i < s.items[k - 1].s.i {
                    return bad("token marks go backwards", format!("token #{k} {} after {}", short(t), short(&s.items[k - 1])));
                }
            }
            for (k, t) in a.items.iter().enumerate() {
                marks += 2;
                if !ok(&t.s) || !ok(&t.e) || t.s.i > t.e.i {
                    return bad("an event mark is not a position of the input", format!("event #{k} {}", short(t)));
                }
                if k > 0 && t.s.i < a.items[k - 1].s.i {
                    return bad("event marks go backwards", format!("event #{k} {} after {}", short(t), short(&a.items[k - 1])));
                }
            }
            for e in [&a.err, &s.err].into_iter().flatten() {
                for m in [e.pm, e.cm].into_iter().flatten() {
                    marks += 1;
                    if !ok(&m) {
                        return bad("an error mark is not a position of the input", format!("{m:?} {}", e.text));
                    }
                }
            }
            cx.count("marks checked against the text", marks);
        }
        let (b, bs) = cx.reference(|| (refl::parse(&i.bytes, enc), refl::scan(&i.bytes, enc)));
        if let Some(w) = exempt(&i.bytes, &b).or(exempt(&i.bytes, &bs)) {
            return V::Skip(w);
        }
        for (k, (x, y)) in a.items.iter().zip(&b.items).enumerate() {
            if x.s != y.s || x.e != y.e {
                return bad("event marks differ from libyaml", format!("#{k} {}\nlibyaml {}", short(x), short(y)));
            }
        }
        for (k, (x, y)) in s.items.iter().zip(&bs.items).enumerate() {
            if x.s != y.s || x.e != y.e {
                return bad("token marks differ from libyaml", format!("#{k} {}\nlibyaml {}", short(x), short(y)));
            }
        }
        for (x, y) in [(&a.err, &b.err), (&s.err, &bs.err)] {
            if let (Some(x), Some(y)) = (x, y) {
                if x.kind == y.kind && (x.pm != y.pm || x.cm != y.cm) {
                    return bad("error marks differ from libyaml", format!("{}\nlibyaml {}", short(x), short(y)));
                }
            }
        }
        // Documents and nodes.
        let l = tri!(sut::load_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        let lb = cx.reference(|| refl::load(&i.bytes, enc));
        if !lb.dirty && !lb.capped {
            for (k, (x, y)) in l.docs.iter().zip(&lb.docs).enumerate() {
                if (x.s, x.e) != (y.s, y.e) {
                    return bad("document marks differ from libyaml", format!("#{k} {:?}-{:?} libyaml {:?}-{:?}", x.s, x.e, y.s, y.e));
                }
                for (m, (p, q)) in x.nodes.iter().zip(&y.nodes).enumerate() {
                    if (p.s, p.e) != (q.s, q.e) {
                        return bad("node marks differ from libyaml", format!("#{k} node {}: {}\nlibyaml {}", m + 1, short(p), short(q)));
                    }
                }
                cx.count("nodes", x.nodes.len() as u64);
            }
            if let (Some(x), Some(y)) = (&l.err, &lb.err) {
                if x.kind == y.kind && (x.pm != y.pm || x.cm != y.cm) {
                    return bad("error marks differ from libyaml", format!("{}\nlibyaml {}", short(x), short(y)));
                }
            }
        }
        cx.count("events", a.items.len() as u64);
        cx.count("tokens", s.items.len() as u64);
        cx.shape(fnv(format!("{:?}", a.items.iter().take(60).map(|x| (x.s.l, x.s.c, x.e.l, x.e.c)).collect::<Vec<_>>()).as_bytes()));
        V::Ok(nontrivial(&a))
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("marks checked against the text", 1000)]
    }
}
