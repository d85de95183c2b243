//! C28: long streams in bounded memory.  C29: cost grows with the length, not faster.
//! Streams are made on the fly: a head, a unit repeated, a tail, handed out in small pieces.
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::{alloc, gen_ev, gen_yaml, input::*, sut};
use libyaml_safer as ys;
use std::io::{self, BufRead, Read, Write};

#[derive(Clone)]
/// `#` in the unit is replaced by the last digits of a counter.
struct Stream {
    head: Vec<u8>,
    unit: Vec<u8>,
    marks: Vec<usize>,
    tail: Vec<u8>,
    n: u64,
    /// Which part: 0 the head, 1..=n a unit, n + 1 the tail.
    at: u64,
    pos: usize,
    piece: usize,
    total: u64,
    /// For large pieces, everything at once.
    all: Vec<u8>,
}
impl Stream {
    fn new(s: &Shape, n: u64, piece: usize, utf16: u8) -> Stream {
        let conv = |t: &str, bom: bool| match utf16 {
            0 => t.as_bytes().to_vec(),
            k => gen_yaml::to_utf16(t, k == 1, bom),
        };
        let unit = conv(&s.unit, false);
        let marks = if utf16 == 0 && s.counted { (0..unit.len()).filter(|k| unit[*k] == b'#').collect() } else { vec![] };
        Stream { head: conv(&s.head, true), unit, marks, tail: conv(&s.tail, false), n, at: 0, pos: 0, piece, total: 0, all: vec![] }
    }
    /// Put together, so that pieces can be larger than a unit.
    fn joined(mut self) -> Stream {
        if self.piece > 8192 {
            let mut v = vec![];
            self.read_to_end(&mut v).unwrap();
            self.all = v;
            self.at = 0;
            self.pos = 0;
        }
        self
    }
    fn part(&self) -> &[u8] {
        if self.at == 0 {
            &self.head
        } else if self.at <= self.n {
            &self.unit
        } else {
            &self.tail
        }
    }
}
impl Read for Stream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let a = self.fill_buf()?;
        let n = a.len().min(b.len());
        b[..n].copy_from_slice(&a[..n]);
        self.consume(n);
        Ok(n)
    }
}
impl BufRead for Stream {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if !self.all.is_empty() {
            return Ok(&self.all[self.pos..self.all.len().min(self.pos + self.piece)]);
        }
        while self.at <= self.n && self.pos >= self.part().len() {
            self.at += 1;
            self.pos = 0;
            if self.at <= self.n && !self.marks.is_empty() {
                let mut k = self.at;
                for m in self.marks.iter().rev() {
                    self.unit[*m] = b'0' + (k % 10) as u8;
                    k /= 10;
                }
            }
        }
        let p = self.part();
        let end = p.len().min(self.pos + self.piece);
        Ok(&p[self.pos.min(end)..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.total += n as u64;
    }
}

/// Sinks without a size, which can be made without end.
struct Gone;
impl Write for Gone {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Full;
impl Write for Full {
    fn write(&mut self, _: &[u8]) -> io::Result<usize> {
        Err(io::ErrorKind::StorageFull.into())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Null(u64);
impl Write for Null {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

#[derive(Clone, Debug)]
struct Shape {
    head: String,
    unit: String,
    tail: String,
    counted: bool,
    /// Bytes of memory allowed per byte of input beyond the constant: the repetition is inside one token.
    per_byte: i64,
    /// Each unit is a document of its own (loading does not add them up).
    docs: bool,
    name: &'static str,
}
fn sh(name: &'static str, head: &str, unit: &str, tail: &str, per_byte: i64, docs: bool) -> Shape {
    Shape { head: head.into(), unit: unit.into(), tail: tail.into(), counted: unit.contains('#') && !unit.contains(" #"), per_byte, docs, name }
}
fn shapes() -> Vec<Shape> {
    vec![
        sh("documents", "", "--- a######\n...\n", "", 0, true),
        sh("bare documents", "", "---\na######: [b, c]\n", "", 0, true),
        sh("documents with directives", "", "%YAML 1.1\n%TAG !e! tag:e######:\n--- !e!x [a]\n...\n", "", 0, true),
        sh("documents with anchors", "", "--- [&a###### b, *a######]\n...\n", "", 0, true),
        sh("empty documents", "", "---\n", "", 0, true),
        sh("ends of documents", "--- a\n", "...\n", "", 0, true),
        sh("items", "", "- item ######\n", "", 0, false),
        sh("nested items", "", "- - a######\n  - b: c\n", "", 0, false),
        sh("pairs", "", "key######: value\n", "", 0, false),
        sh("complex keys", "", "? - a######\n: - b\n", "", 0, false),
        sh("empty values", "", "? a######\n", "", 0, false),
        sh("anchored items", "", "- &a###### b\n- *a######\n", "", 0, false),
        sh("tagged items", "", "- !t###### b\n- !!str c\n- !<v######> d\n", "", 0, false),
        sh("flow items on one line", "[", "a######, ", "]", 0, false),
        sh("flow items on lines", "[", "a######,\n", "]", 0, false),
        sh("flow pairs", "{", "k######: v, ", "}", 0, false),
        sh("flow collections", "[", "[a######, {b: c}], ", "]", 0, false),
        sh("flow pairs in sequences", "[", "a######: b,\n ", "]", 0, false),
        sh("quoted items", "", "- \"a\\x41\\\n  b\"\n- 'c''d'\n", "", 0, false),
        sh("block scalars", "", "- |\n  a######\n   b\n\n- >-\n  c\n  d\n", "", 0, false),
        sh("multi-line plain items", "", "- a\n  b######\n\n  c\n", "", 0, false),
        sh("comments", "- a\n", " # comment\n", "- b\n", 0, false),
        sh("one long comment", "- a\n#", "comment ", "\n- b\n", 0, false),
        sh("blank lines", "- 'a'\n", "\n", "- b\n", 0, false),
        sh("blanks", "- 'a'", " ", "\n- b\n", 0, false),
        sh("spaces before an item", "-", " ", "b\n", 0, false),
        sh("long plain", "- ", "word ", "end\n- b\n", 24, false),
        sh("long plain over lines", "- ", "word\n  ", "end\n- b\n", 24, false),
        sh("long plain with blank lines", "- ", "word\n\n  ", "end\n- b\n", 24, false),
        sh("long single-quoted", "- '", "word''s ", "'\n- b\n", 24, false),
        sh("long double-quoted", "- \"", "w\\x41\\n\\u00e9 ", "\"\n- b\n", 24, false),
        sh("long double-quoted over lines", "- \"", "word\\\n  x\n  ", "\"\n- b\n", 24, false),
        sh("long literal", "- |\n", "  a line of text\n", "- b\n", 24, false),
        sh("long literal line", "- |\n  ", "word ", "\n- b\n", 24, false),
        sh("long folded", "- >\n", "  a line of text\n", "- b\n", 24, false),
        sh("folded with more indented", "- >\n", "  a\n\n   b\n", "- b\n", 24, false),
        sh("literal with blank lines", "- |+\n  a\n", "\n", "- b\n", 24, false),
        sh("literal with spaces", "- |\n  a\n", "   \n", "- b\n", 24, false),
        sh("non-ASCII literal", "- |\n", "  é漢😀\n", "- b\n", 24, false),
        sh("long anchor", "- &", "abc", " x\n", 24, false),
        sh("long tag", "- !", "a%C3%A9", " x\n", 24, false),
        sh("long prefix", "%TAG !e! ", "abc", "\n--- !e!x y\n", 48, false),
        sh("trailing blanks after plain", "- a", " ", "\n- b\n", 24, false),
        sh("trailing lines after plain", "- a\n", "\n", "- b\n", 24, false),
    ]
}
fn random_shape(r: &mut Rng) -> Shape {
    if r.chance(1, 3) {
        let all = shapes();
        return r.pick(&all).clone();
    }
    if r.bool() {
        // Some text as a document.
        let t = loop {
            let t = match r.below(3) {
                0 => gen_yaml::structured(r, 12),
                1 => gen_yaml::boundary(r),
                _ => gen_yaml::any_text(r, false).0,
            };
            if t.len() <= 400 {
                break t;
            }
        };
        let t = t.trim_start_matches('\u{feff}').to_string();
        let u = format!("{t}{}...\n", if t.ends_with(['\n', '\r']) { "" } else { "\n" });
        Shape { head: String::new(), unit: u, tail: String::new(), counted: false, per_byte: 0, docs: true, name: "texts as documents" }
    } else {
        // Some flow text, on one line, as an item.
        let mut g = gen_yaml::Gen::new(r, 8);
        g.flow(0, 0);
        let t: String = g.out.chars().filter(|c| !matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')).collect();
        let (h, u, e) = match r.below(4) {
            0 => ("[", format!("{t},\n"), "]"),
            1 => ("", format!("? {t}\n: {t}\n"), ""),
            _ => ("", format!("- {t}\n"), ""),
        };
        Shape { head: h.into(), unit: u, tail: e.into(), counted: false, per_byte: 0, docs: false, name: "texts as items" }
    }
}

const CONSUMERS: [&str; 7] = ["parse", "scan", "load", "parse and emit", "load and dump", "readers reset", "emitters reset"];
#[derive(Default)]
struct Use {
    steps: u64,
    bytes: u64,
    out: u64,
    failed: bool,
    time: f64,
}
fn consume(k: usize, mut s: Stream, cfg: &Cfg) -> Use {
    let t0;
    let mut u = Use { steps: 0, bytes: 0, out: 0, failed: false, time: 0.0 };
    let total = |s: &mut u64, st: &Stream| *s = (st.head.len() + st.tail.len()) as u64 + st.n * st.unit.len() as u64;
    total(&mut u.bytes, &s);
    if k < 5 {
        s = s.joined();
    }
    let s = s;
    t0 = cpu();
    match k {
        0 => {
            let mut p = ys::Parser::new();
            p.set_input(s);
            loop {
                match p.parse() {
                    Ok(e) => {
                        u.steps += 1;
                        if matches!(e.data, ys::EventData::StreamEnd) {
                            break;
                        }
                    }
                    Err(_) => {
                        u.failed = true;
                        break;
                    }
                }
            }
        }
        1 => {
            let mut p = ys::Scanner::new();
            p.set_input(s);
            for t in p.by_ref() {
                u.steps += 1;
                u.failed |= t.is_err();
            }
        }
        2 => {
            let mut p = ys::Parser::new();
            p.set_input(s);
            loop {
                match ys::Document::load(&mut p) {
                    Ok(mut d) => {
                        if d.get_root_node().is_none() {
                            break;
                        }
                        u.steps += d.nodes.len() as u64;
                    }
                    Err(_) => {
                        u.failed = true;
                        break;
                    }
                }
            }
        }
        3 => {
            let mut p = ys::Parser::new();
            p.set_input(s);
            let mut out = Null(0);
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, cfg);
                loop {
                    match p.parse() {
                        Ok(e) => {
                            u.steps += 1;
                            let end = matches!(e.data, ys::EventData::StreamEnd);
                            if em.emit(e).is_err() {
                                u.failed = true;
                                break;
                            }
                            if end {
                                break;
                            }
                        }
                        Err(_) => {
                            u.failed = true;
                            break;
                        }
                    }
                }
            }
            u.out = out.0;
        }
        5 => {
            // Each unit is a stream of its own, read to its end, or left, or rejected, by the same instances.
            let (mut p, mut sc) = (ys::Parser::new(), ys::Scanner::new());
            for i in 0..s.n {
                let mut one = s.clone();
                one.n = 1 + i % 2;
                if i % 5 == 4 {
                    one.tail.extend(if one.head.starts_with(&[0xff, 0xfe]) { &b"[\0%\0"[..] } else { b"[ % \"" });
                }
                let most = if i % 3 == 0 { u64::MAX } else { i / 3 % 23 };
                match i % 4 {
                    3 => {
                        sc.reset();
                        sc.set_input(one);
                        for t in sc.by_ref().take(most.min(1 << 40) as usize) {
                            u.steps += 1;
                            if t.is_err() {
                                break;
                            }
                        }
                    }
                    2 => {
                        p.reset();
                        p.set_input(one);
                        for _ in 0..most.min(4) {
                            match ys::Document::load(&mut p) {
                                Ok(d) if !d.nodes.is_empty() => u.steps += d.nodes.len() as u64,
                                _ => break,
                            }
                        }
                    }
                    _ => {
                        p.reset();
                        p.set_input(one);
                        for t in p.by_ref().take(most.min(1 << 40) as usize) {
                            u.steps += 1;
                            if t.is_err() {
                                break;
                            }
                        }
                    }
                }
            }
        }
        6 => {
            // Each unit is written as a stream of its own by the same emitter, whole or in part, some in vain.
            let mut em = ys::Emitter::new();
            for i in 0..s.n {
                let mut one = s.clone();
                one.n = 1 + i % 2;
                let most = if i % 3 == 0 { u64::MAX } else { i / 3 % 23 };
                let mut p = ys::Parser::new();
                p.set_input(one);
                em.reset();
                if i % 7 == 6 {
                    em.set_output(Box::leak(Box::new(Full)));
                } else {
                    em.set_output(Box::leak(Box::new(Gone)));
                }
                sut::configure(&mut em, cfg);
                if i % 4 == 3 {
                    let mut opened = false;
                    for _ in 0..most.min(3) {
                        match ys::Document::load(&mut p) {
                            Ok(d) if !d.nodes.is_empty() => {
                                u.steps += d.nodes.len() as u64;
                                opened = d.dump(&mut em).is_ok();
                                if !opened {
                                    break;
                                }
                            }
                            _ => break,
                        }
                    }
                    if opened && i % 8 == 7 {
                        let _ = em.close();
                    }
                    continue;
                }
                let mut started = false;
                for e in p.by_ref().take(most.min(1 << 40) as usize).flatten() {
                    u.steps += 1;
                    started = true;
                    if em.emit(e).is_err() {
                        break;
                    }
                }
                if started && i % 2 == 1 {
                    let _ = em.flush();
                }
            }
        }
        _ => {
            let mut p = ys::Parser::new();
            p.set_input(s);
            let mut out = Null(0);
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, cfg);
                loop {
                    match ys::Document::load(&mut p) {
                        Ok(mut d) => {
                            let end = d.get_root_node().is_none();
                            u.steps += d.nodes.len() as u64;
                            if d.dump(&mut em).is_err() {
                                u.failed = true;
                                break;
                            }
                            if end {
                                break;
                            }
                        }
                        Err(_) => {
                            u.failed = true;
                            break;
                        }
                    }
                }
            }
            u.out = out.0;
        }
    }
    u.time = cpu() - t0;
    u
}

/// aux: consumer, size of pieces, encoding, index of a fixed shape + 1 or 0, seed of a random one.
fn shape_of(i: &Input) -> Shape {
    let all = shapes();
    match i.a(3) as usize {
        0 => random_shape(&mut Rng::new(i.a(4))),
        k if k >= BUILT as usize => all[0].clone(),
        k if k >= 10_000 => {
            let (a, b, c) = crate::vast::RUNS[(k - 10_000) % crate::vast::RUNS.len()];
            Shape { head: a.into(), unit: b.into(), tail: format!("{c}\n"), docs: false, counted: false, ..all[0].clone() }
        }
        k => all[(k - 1) % all.len()].clone(),
    }
}
fn make(r: &mut Rng, fixed: Option<usize>) -> Input {
    let mut i = Input::new("stream");
    i.cfg = gen_ev::cfg(r);
    let seed = r.next();
    let docs = fixed.is_some() || random_shape(&mut Rng::new(seed)).docs;
    let k = if docs { *r.pick(&[0, 1, 2, 2, 3, 3, 4, 4, 5, 6]) } else { *r.pick(&[0, 0, 1, 1, 3, 3, 3, 5, 6, 2, 4]) };
    i.aux = vec![k as u64, *r.pick(&[1, 7, 64, 512, 4096]), *r.pick(&[0, 0, 0, 0, 1, 2]), fixed.map_or(0, |k| k as u64 + 1), seed];
    i
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
}
fn cpu() -> f64 {
    let mut t = [0i64; 2];
    unsafe {
        clock_gettime(3, &mut t);
    }
    t[0] as f64 + t[1] as f64 * 1e-9
}

pub struct Bounded;
impl Check for Bounded {
    fn id(&self) -> &'static str {
        "C28"
    }
    fn rule(&self) -> &'static str {
        "the stream was accepted to its end at both lengths, and the peak of memory was measured for both"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 14_000, thorough: 200_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut r = Rng::new(28);
        let mut v = vec![];
        for k in 0..shapes().len() {
            for c in 0..CONSUMERS.len() as u64 {
                let mut i = make(&mut r, Some(k));
                i.aux[0] = c;
                i.aux[2] = 0;
                v.push(i);
            }
        }
        v
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        make(r, None)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let s = shape_of(i);
        let k = i.a(0) as usize % CONSUMERS.len();
        let (piece, utf16) = (i.a(1).clamp(1, 8192) as usize, (i.a(2) % 3) as u8);
        if s.unit.is_empty() {
            return V::Skip("empty unit");
        }
        if !s.docs && (k == 2 || k == 4) {
            // A document in memory is as large as its text.
            return V::Skip("one document, which loading keeps whole");
        }
        let u = s.unit.len() as u64;
        let n1 = (24_000 / u).clamp(300, 12_000);
        let n2 = n1 + (160_000 / u).clamp(1800, 40_000);
        let (n1, n2) = if cx.tier == Tier::Thorough { (n1, n2 * 4) } else { (n1, n2) };
        let measure = |n: u64| {
            let st = Stream::new(&s, n, piece, utf16);
            let base = alloc::live().0;
            alloc::mark();
            let u = consume(k, st, &i.cfg);
            (u, alloc::peak() - base)
        };
        if measure(3).0.failed || consume(0, Stream::new(&s, 3, piece, utf16), &i.cfg).failed {
            // (The scanner alone also takes what only opens brackets; that nests, and costs more.)
            return V::Skip("not an accepted stream");
        }
        let (u1, p1) = measure(n1);
        let (u2, p2) = measure(n2);
        if u1.failed || u2.failed {
            return V::Skip("not an accepted stream");
        }
        let allowed = 4_096 + s.per_byte * (u2.bytes - u1.bytes) as i64;
        cx.count("bytes read", u1.bytes + u2.bytes);
        cx.count("bytes written", u1.out + u2.out);
        cx.count("events, tokens and nodes", u1.steps + u2.steps);
        cx.count(&format!("streams: {}", CONSUMERS[k]), 1);
        cx.shape(fnv(format!("{} {k} {}", s.name, s.unit).as_bytes()));
        if p2 - p1 > allowed {
            // A buffer of a fixed size may still have been filling up: growth has to go on.
            let (n3, n4) = (n2 * 4, n2 * 16);
            let (u3, p3) = measure(n3);
            let (u4, p4) = measure(n4);
            let more = |a: &Use, b: &Use| 4_096 + s.per_byte * (b.bytes - a.bytes) as i64;
            cx.count("growth looked at again", 1);
            if p3 - p2 > more(&u2, &u3) && p4 - p3 > more(&u3, &u4) {
                return bad(
                    format!("memory grows with the length of the stream ({}, {})", CONSUMERS[k], s.name),
                    format!("{:?} repeated {n1} times: peak {p1} bytes; {n2}: {p2}; {n3}: {p3}; {n4}: {p4}; allowed at first {allowed}", s.unit),
                );
            }
        }
        // And not much to begin with: the piece, the current token, the buffers.
        let most = 1_000_000 + 16 * piece as i64 + (s.per_byte + 8) * if s.per_byte > 0 { u1.bytes as i64 } else { 1024 + 20 * u as i64 };
        if p1 > most {
            return bad(format!("much memory for a short stream ({}, {})", CONSUMERS[k], s.name), format!("{:?} repeated {n1} times: peak {p1} bytes > {most}", s.unit));
        }
        V::Ok(true)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("bytes read", 10_000_000), ("bytes written", 1_000_000), ("events, tokens and nodes", 1_000_000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["memory is what the global allocator hands out; growth below 4 KiB over a stream ten times as long, and growth that ends, is not seen"]
    }
}

/// Documents that are built and dumped.
const BUILT: u64 = 20_000;
const BUILDS: [&str; 6] = ["items", "pairs", "items and pairs in turn", "sequences", "nodes first", "documents"];
fn build(kind: usize, n: u64, cfg: &Cfg) -> Use {
    let mut sink = Null(0);
    let mut us = Use::default();
    let start = cpu();
    {
        let mut em = ys::Emitter::new();
        em.set_output(&mut sink);
        sut::configure(&mut em, cfg);
        let plain = ys::ScalarStyle::Any;
        let new = || ys::Document::new(None, &[], true, true);
        let mut d = new();
        let root = d.add_sequence(None, ys::SequenceStyle::Any);
        let map = d.add_mapping(Some("!m"), ys::MappingStyle::Any);
        d.append_sequence_item(root, map);
        let word = "word ".repeat(4);
        for k in 0..n {
            match kind {
                0 => {
                    let x = d.add_scalar(None, &word, plain);
                    d.append_sequence_item(root, x);
                }
                1 => {
                    let x = d.add_scalar(None, &word, plain);
                    let y = d.add_scalar(Some("!x"), "b", plain);
                    d.yaml_document_append_mapping_pair(map, x, y);
                }
                2 => {
                    let x = d.add_scalar(None, &word, plain);
                    let y = d.add_scalar(None, "b", plain);
                    let z = d.add_scalar(None, "c", plain);
                    d.append_sequence_item(root, z);
                    d.yaml_document_append_mapping_pair(map, x, y);
                }
                3 => {
                    let x = d.add_scalar(None, &word, plain);
                    let s = d.add_sequence(None, ys::SequenceStyle::Flow);
                    d.append_sequence_item(s, x);
                    d.append_sequence_item(root, s);
                }
                4 => {
                    let x = d.add_scalar(None, &word, plain);
                    us.failed |= d.get_node(x).is_none() || d.get_node_mut(root).is_none();
                }
                _ => {
                    let mut e = new();
                    let x = e.add_sequence(None, ys::SequenceStyle::Any);
                    let y = e.add_scalar(None, &word, plain);
                    e.append_sequence_item(x, y);
                    us.failed |= e.dump(&mut em).is_err();
                }
            }
            us.steps += k & 1;
        }
        if kind == 4 {
            for k in 0..n as i32 {
                d.append_sequence_item(root, map + 1 + k);
            }
        }
        us.failed |= d.dump(&mut em).is_err();
        us.failed |= em.flush().is_err();
    }
    us.time = cpu() - start;
    us.out = sink.0;
    us
}

pub struct Linear;
/// How much longer the second stream is.
const TIMES: u64 = 8;
impl Check for Linear {
    fn id(&self) -> &'static str {
        "C29"
    }
    fn rule(&self) -> &'static str {
        "the stream was accepted to its end at both lengths, and the CPU time was measured for both"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 14_000, thorough: 200_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = Bounded.fixed();
        for i in Bounded.fixed().iter_mut().filter(|i| i.a(0) != 5 && i.a(0) != 6) {
            i.aux[1] = 1 << 22;
            v.push(i.clone());
        }
        for k in 0..crate::vast::RUNS.len() as u64 {
            for c in 0..5 {
                let mut i = Input::new("runs");
                i.aux = vec![c, [7, 512, 1 << 22][(k + c) as usize % 3], 0, 10_000 + k, 0];
                v.push(i);
            }
        }
        for k in 0..BUILDS.len() as u64 {
            let mut i = Input::new("built");
            i.aux = vec![0, 512, 0, BUILT + k, 0];
            v.push(i);
        }
        v
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = make(r, None);
        if r.chance(1, 3) {
            i.aux[1] = *r.pick(&[1 << 14, 1 << 16, 1 << 22]);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let s = shape_of(i);
        let k = i.a(0) as usize % CONSUMERS.len();
        let (piece, utf16) = (i.a(1).clamp(1, 1 << 22) as usize, (i.a(2) % 3) as u8);
        if s.unit.is_empty() {
            return V::Skip("empty unit");
        }
        if !s.docs && (k == 2 || k == 4) && s.unit.contains(['&', '*']) {
            return V::Skip("looking up anchors costs what libyaml's lookup costs");
        }
        let u = s.unit.len() as u64;
        let n1 = (if cx.tier == Tier::Thorough { 80_000 } else { 32_000 } / u).max(40);
        let built = (i.a(3) >= BUILT && i.a(3) < BUILT + BUILDS.len() as u64).then(|| (i.a(3) - BUILT) as usize);
        let n1 = if built.is_some() { 16_000 } else { n1 };
        let n2 = n1 * TIMES;
        let time = |n: u64| {
            if let Some(kind) = built {
                let u = build(kind, n, &i.cfg);
                return (u.time, u);
            }
            let st = Stream::new(&s, n, piece, utf16);
            let u = consume(k, st, &i.cfg);
            (u.time, u)
        };
        if time(3).1.failed || consume(0, Stream::new(&s, 3, piece, utf16), &i.cfg).failed {
            return V::Skip("not an accepted stream");
        }
        let (mut t1, u1) = time(n1);
        let (mut t2, u2) = time(n2);
        if u1.failed || u2.failed {
            return V::Skip("not an accepted stream");
        }
        // The least of several measurements, and several chances, before it counts.
        let limit = (TIMES * 3) as f64;
        let much = |t1: f64, t2: f64| t2 > limit * t1.max(0.0005);
        let mut tries = 0;
        while much(t1, t2) && tries < 5 {
            tries += 1;
            if t2 > 1.0 && tries > 2 {
                break;
            }
            t1 = t1.max(time(n1).0);
            t2 = t2.min(time(n2).0);
        }
        cx.count("bytes read", u1.bytes + u2.bytes);
        cx.count("bytes written", u1.out + u2.out);
        cx.count("events, tokens and nodes", u1.steps + u2.steps);
        cx.count(&format!("streams: {}", CONSUMERS[k]), 1);
        if let Some(kind) = built {
            cx.count(&format!("built: {}", BUILDS[kind]), 1);
        }
        let ratio = t2 / t1.max(1e-6);
        cx.count(
            match ratio {
                x if x < 6.0 => "ratio of times below 6",
                x if x < 10.0 => "ratio of times 6 to 10",
                x if x < 16.0 => "ratio of times 10 to 16",
                _ => "ratio of times above 16",
            },
            1,
        );
        cx.shape(fnv(format!("{} {k} {}", s.name, s.unit).as_bytes()));
        if much(t1, t2) {
            return bad(
                format!("cost grows faster than the length ({}, {})", if built.is_some() { "build and dump" } else { CONSUMERS[k] }, built.map_or(s.name, |k| BUILDS[k])),
                format!("{:?} repeated {n1} times: {:.1} ms; {n2} times: {:.1} ms", s.unit, t1 * 1e3, t2 * 1e3),
            );
        }
        V::Ok(true)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("bytes read", 10_000_000), ("bytes written", 1_000_000), ("events, tokens and nodes", 1_000_000)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["CPU time of the thread; eight times the length may cost up to 24 times as much before it counts, five times measured"]
    }
}
