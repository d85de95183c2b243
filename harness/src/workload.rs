//! One mixed use of the whole API, small enough for an interpreter: read text in pieces, scan,
//! load, build, edit, dump, emit, reset, drop half-way.  Every string that comes out is checked
//! byte by byte.  Used natively (C21 in vmon), under Miri and under AddressSanitizer (the `mem` crate).
use crate::gen_ev;
use crate::gen_yaml;
use crate::model::*;
use crate::rng::Rng;
use crate::sut::{self, ChunkReader, Plan};
use libyaml_safer as ys;
use std::io::{BufRead, Read, Write};

#[derive(Default, Debug, Clone)]
pub struct Seen {
    pub strings: u64,
    pub bytes: u64,
    pub events: u64,
    pub tokens: u64,
    pub nodes: u64,
    pub out: u64,
    pub errors: u64,
    pub panics: u64,
    pub bangs: u64,
    pub bad: Option<String>,
}
impl Seen {
    fn s(&mut self, x: &str) {
        self.strings += 1;
        self.bytes += x.len() as u64;
        if let Err(e) = core::str::from_utf8(std::hint::black_box(x.as_bytes())) {
            self.bad.get_or_insert_with(|| format!("a string that is not UTF-8: {e}: {:02x?}", x.as_bytes()));
        }
        // Every character, too: one that is not a scalar value is as bad.
        for c in x.chars() {
            if char::from_u32(std::hint::black_box(c as u32)).is_none() {
                self.bad.get_or_insert_with(|| format!("a char that is not one: {:x}", c as u32));
            }
        }
    }
    fn o(&mut self, x: &Option<String>) {
        if let Some(x) = x {
            self.s(x)
        }
    }
    fn tags(&mut self, t: &[ys::TagDirective]) {
        for t in t {
            self.s(&t.handle);
            self.s(&t.prefix);
        }
    }
    fn event(&mut self, e: &ys::Event) {
        self.events += 1;
        match &e.data {
            ys::EventData::DocumentStart { tag_directives, .. } => self.tags(tag_directives),
            ys::EventData::Alias { anchor } => self.s(anchor),
            ys::EventData::Scalar { anchor, tag, value, .. } => {
                self.o(anchor);
                self.o(tag);
                self.s(value)
            }
            ys::EventData::SequenceStart { anchor, tag, .. } | ys::EventData::MappingStart { anchor, tag, .. } => {
                self.o(anchor);
                self.o(tag)
            }
            _ => {}
        }
    }
    fn token(&mut self, t: &ys::Token) {
        self.tokens += 1;
        match &t.data {
            ys::TokenData::Alias { value } | ys::TokenData::Anchor { value } => self.s(value),
            ys::TokenData::Tag { handle, suffix } => {
                self.s(handle);
                self.s(suffix)
            }
            ys::TokenData::TagDirective { handle, prefix } => {
                self.s(handle);
                self.s(prefix)
            }
            ys::TokenData::Scalar { value, .. } => self.s(value),
            _ => {}
        }
    }
    fn doc(&mut self, d: &ys::Document) {
        self.tags(&d.tag_directives);
        for n in &d.nodes {
            self.nodes += 1;
            self.o(&n.tag);
            if let ys::NodeData::Scalar { value, .. } = &n.data {
                self.s(value)
            }
        }
    }
    fn err(&mut self, e: &ys::Error) {
        use std::error::Error as _;
        self.errors += 1;
        self.s(&e.to_string());
        self.s(&format!("{e:?}"));
        self.s(e.problem());
        if let Some(c) = e.context() {
            self.s(c)
        }
        let _ = (e.kind(), e.problem_mark(), e.context_mark(), e.source().map(|s| s.to_string()));
    }
}

fn cut(s: &str, max: usize) -> &str {
    let mut n = s.len().min(max);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    &s[..n]
}
fn input(r: &mut Rng, max: usize) -> Vec<u8> {
    // The generators of whole texts are too slow for an interpreter.
    let kind = if max <= 64 { r.range(1, 4) } else { r.below(6) };
    match kind {
        0 => {
            let mut b = gen_yaml::any_bytes(r).0;
            b.truncate(max);
            b
        }
        1 | 2 => {
            // Characters of every width, where pieces end anywhere.
            let n = r.below(max / 3 + 1);
            let s: String = (0..n).map(|_| *r.pick(&['a', ' ', '\n', ':', 'é', 'ÿ', '漢', '\u{2028}', '\u{85}', '😀', '\u{10ffff}', '"', '-', '\u{feff}'])).collect();
            match r.below(5) {
                0 => gen_yaml::to_utf16(&s, true, true),
                1 => gen_yaml::to_utf16(&s, false, true),
                2 => {
                    let mut b = s.into_bytes();
                    gen_yaml::damage(r, &mut b);
                    b
                }
                _ => s.into_bytes(),
            }
        }
        3 => {
            let s = format!("\"{}\"", (0..r.below(6)).map(|_| *r.pick(&["\\x41", "\\u00e9", "\\U0001F600", "\\N", "\\L", "\\\n ", "é", "\\uD800", "\\U00110000", "\\x4"])).collect::<String>());
            s.into_bytes()
        }
        4 => {
            let s = format!("!<{}> x", (0..r.below(6)).map(|_| *r.pick(&["%41", "%C3%A9", "%F0%9F%98%80", "%C3", "%ED%A0%80", "%F8%80", "%e2%80%a8", "a"])).collect::<String>());
            s.into_bytes()
        }
        _ => cut(&gen_yaml::any_text(r, false).0, max).as_bytes().to_vec(),
    }
}
fn reader<'a>(r: &mut Rng, b: &'a [u8]) -> ChunkReader<'a> {
    let n = b.len();
    let plan = match r.below(4) {
        0 => Plan::Whole,
        1 => Plan::Fixed(1 + r.below(5)),
        2 => Plan::Random(r.next(), 1 + r.below(9)),
        _ => Plan::Cuts({
            let mut v = vec![r.below(n + 1), r.below(n + 1)];
            v.sort();
            v
        }),
    };
    let rd = ChunkReader::new(b, plan).interrupts(if r.chance(1, 4) { 60 } else { 0 });
    if r.chance(1, 6) {
        rd.fail_at(r.below(n + 1), std::io::ErrorKind::Other)
    } else {
        rd
    }
}
/// A source that panics once, in the middle of being read.
struct Bomb<'a> {
    inner: ChunkReader<'a>,
    fuse: u32,
}
impl std::io::Read for Bomb<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = self.fill_buf()?.read(b)?;
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Bomb<'_> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        if self.fuse > 0 {
            self.fuse -= 1;
            if self.fuse == 0 {
                panic!("{BANG}");
            }
        }
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n)
    }
}
const BANG: &str = "the source or sink panics";
struct Sink {
    left: usize,
    step: usize,
    got: u64,
    fuse: u32,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.fuse > 0 {
            self.fuse -= 1;
            if self.fuse == 0 {
                panic!("{BANG}");
            }
        }
        if self.left == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(self.step).min(self.left);
        // Touch what is written.
        self.got += b[..n].iter().map(|x| *x as u64 & 1).sum::<u64>() + n as u64;
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn sink(r: &mut Rng) -> Sink {
    let left = if r.chance(1, 4) { r.below(60) } else { usize::MAX };
    Sink { left, step: 1 + r.below(40), got: 0, fuse: 0 }
}

pub const OPS: u64 = 9;
/// `max` bounds the sizes; returns what was seen.
pub fn case(seed: u64, max: usize, seen: &mut Seen) {
    let mut r = Rng::new(seed);
    let r = &mut r;
    let op = if max <= 64 && r.chance(5, 6) { r.below(4) } else { r.below(OPS as usize) };
    let res = sut::guarded(|| one(op, r, max, seen));
    if res.is_err() {
        seen.panics += 1;
    }
}
fn one(op: usize, r: &mut Rng, max: usize, seen: &mut Seen) {
    match op {
        0 => {
            // Parse, maybe drop half-way, maybe reset and go on with something else.
            let a = input(r, max);
            let b = input(r, max);
            let mut p = ys::Parser::new();
            for d in [&a, &b] {
                p.set_input(reader(r, d));
                if r.chance(1, 8) {
                    p.set_encoding(sut::enc_to(r.below(4) as u8));
                }
                let stop = if r.chance(1, 3) { r.below(8) } else { 20 * max };
                for _ in 0..stop {
                    match p.parse() {
                        Ok(e) => {
                            seen.event(&e);
                            if matches!(e.data, ys::EventData::StreamEnd) {
                                break;
                            }
                        }
                        Err(e) => {
                            seen.err(&e);
                            break;
                        }
                    }
                }
                if r.bool() {
                    return;
                }
                p.reset();
            }
        }
        1 => {
            let a = input(r, max);
            let mut s = ys::Scanner::new();
            s.set_input(reader(r, &a));
            let stop = if r.chance(1, 3) { r.below(8) } else { 20 * max };
            for t in s.by_ref().take(stop) {
                match t {
                    Ok(t) => seen.token(&t),
                    Err(e) => {
                        seen.err(&e);
                        break;
                    }
                }
            }
            if r.bool() {
                s.reset();
                let b = b"[a, &b c]".to_vec();
                s.set_input(ChunkReader::whole(&b));
                for t in s.by_ref().flatten() {
                    seen.token(&t);
                }
            }
        }
        2 | 3 => {
            // Load, look around, change a node, dump.
            let a = input(r, max);
            let mut p = ys::Parser::new();
            p.set_input(reader(r, &a));
            let mut out = sink(r);
            let mut em = ys::Emitter::new();
            sut::configure(&mut em, &gen_ev::cfg(r));
            em.set_output(&mut out);
            let mut failed = false;
            for _ in 0..4 {
                match ys::Document::load(&mut p) {
                    Ok(mut d) => {
                        if d.get_root_node().is_none() {
                            break;
                        }
                        seen.doc(&d);
                        let n = d.nodes.len() as i32;
                        for k in [-1, 0, 1, n, n + 1, i32::MAX, i32::MIN] {
                            if let Some(x) = d.get_node(k) {
                                seen.o(&x.tag);
                            }
                        }
                        if let Some(x) = d.get_node_mut(n) {
                            x.tag = Some("!changed".into());
                        }
                        if r.bool() {
                            let d2 = d;
                            drop(d2);
                        } else if !failed {
                            if let Err(e) = d.dump(&mut em) {
                                seen.err(&e);
                                failed = true;
                            }
                        }
                    }
                    Err(e) => {
                        seen.err(&e);
                        break;
                    }
                }
            }
            drop(em);
            seen.out += out.got;
        }
        4 => {
            // Build a graph with sharing, dump it into a sink that may fail.
            let mut d = ys::Document::new(None, &[], r.bool(), r.bool());
            let mut ids = vec![];
            for _ in 0..r.range(1, 8) {
                let t = gen_ev::tag(r);
                let t = if r.bool() { None } else { Some(&t[..]) };
                ids.push(match r.below(3) {
                    0 => d.add_scalar(t, cut(&gen_ev::value(r), max), ys::ScalarStyle::Any),
                    1 => d.add_sequence(t, ys::SequenceStyle::Any),
                    _ => d.add_mapping(t, ys::MappingStyle::Any),
                });
            }
            for _ in 0..r.below(12) {
                let (a, b, c) = (*r.pick(&ids), *r.pick(&ids), *r.pick(&ids));
                match d.get_node(a).map(|n| &n.data) {
                    Some(ys::NodeData::Sequence { .. }) => d.append_sequence_item(a, b),
                    Some(ys::NodeData::Mapping { .. }) => d.yaml_document_append_mapping_pair(a, b, c),
                    _ => {}
                }
            }
            seen.doc(&d);
            let mut out = sink(r);
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &gen_ev::cfg(r));
                if let Err(e) = d.dump(&mut em) {
                    seen.err(&e);
                }
                if r.bool() {
                    let _ = em.close();
                }
                if r.chance(1, 4) {
                    em.reset();
                }
            }
            seen.out += out.got;
        }
        7 => {
            // The source panics; what remains must be safe to use and to drop.
            let a = input(r, max);
            let b = b"[a, &b c]".to_vec();
            let mut p = ys::Parser::new();
            let fuse = 1 + r.below(12) as u32;
            p.set_input(Bomb { inner: reader(r, &a), fuse });
            let load = r.chance(1, 3);
            let mut after = r.below(6);
            for _ in 0..20 * max {
                let x = sut::guarded(|| {
                    if load {
                        match ys::Document::load(&mut p) {
                            Ok(mut d) => {
                                seen.doc(&d);
                                return d.get_root_node().is_some();
                            }
                            Err(e) => seen.err(&e),
                        }
                        return false;
                    }
                    match p.parse() {
                        Ok(e) => {
                            seen.event(&e);
                            return !matches!(e.data, ys::EventData::StreamEnd);
                        }
                        Err(e) => seen.err(&e),
                    }
                    false
                });
                match x {
                    Ok(true) => {}
                    Ok(false) => break,
                    Err(_) if after == 0 => break,
                    Err(_) => {
                        seen.bangs += 1;
                        after -= 1
                    }
                }
            }
            if r.bool() {
                p.reset();
                p.set_input(Bomb { inner: ChunkReader::whole(&b), fuse: 0 });
                for e in p.by_ref().take(20).flatten() {
                    seen.event(&e);
                }
                return;
            }
        }
        8 => {
            // The sink panics.
            let b = r.range(2, 12) as i32;
            let mut evs = gen_ev::stream(r, b, false);
            evs.truncate(max);
            for e in &mut evs {
                if let Ev::Scalar { value, .. } = e {
                    let n = cut(value, max).len();
                    value.truncate(n);
                }
            }
            let mut out = sink(r);
            out.fuse = 1 + r.below(6) as u32;
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &gen_ev::cfg(r));
                for e in &evs {
                    let e = sut::ev_to(e);
                    seen.event(&e);
                    let flush = r.chance(1, 3);
                    if sut::guarded(|| {
                        if let Err(x) = em.emit(e) {
                            seen.err(&x);
                        }
                        if flush {
                            let _ = em.flush();
                        }
                    })
                    .is_err()
                    {
                        seen.bangs += 1;
                        if r.bool() {
                            break;
                        }
                    }
                }
            }
            seen.out += out.got;
        }
        _ => {
            // Emit a stream, good or bad, whole or cut, and go on after errors.
            let mut evs = match r.below(3) {
                0 => gen_ev::any_stream(r).0,
                _ => {
                    let b = r.range(2, 12) as i32;
                    gen_ev::stream(r, b, false)
                }
            };
            evs.truncate(max);
            for e in &mut evs {
                if let Ev::Scalar { value, .. } = e {
                    let n = cut(value, max).len();
                    value.truncate(n);
                }
            }
            let mut out = sink(r);
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &gen_ev::cfg(r));
                for e in &evs {
                    let e = sut::ev_to(e);
                    seen.event(&e);
                    if let Err(x) = em.emit(e) {
                        seen.err(&x);
                        if r.bool() {
                            break;
                        }
                    }
                    if r.chance(1, 12) {
                        let _ = em.flush();
                    }
                }
            }
            seen.out += out.got;
        }
    }
}
