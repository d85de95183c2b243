//! Reading-side properties with oracles other than libyaml (and a few with it).
use super::parity_read::*;
use crate::cmp::*;
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sut::{self, ChunkReader};
use crate::tri;
use libyaml_safer as ys;
use std::io::{BufRead, BufReader};

// ================================================================ C01 totality
pub struct Totality;

fn deep(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let n = match r.below(40) {
        0 => r.range(5000, 8000),
        1..=9 => r.range(1000, 3000),
        _ => r.range(50, 600),
    };
    if r.bool() {
        // Runs of one thing and then of another.
        let mut t = String::new();
        for _ in 0..r.range(1, 3) {
            let (a, b, c) = *r.pick(crate::vast::RUNS);
            t += a;
            t += &b.repeat(r.range(2, n));
            t += c;
            t += *r.pick(&["\n", "\n", " ", "", "\n...\n", "\n---\n"]);
        }
        return (t.into_bytes(), "runs");
    }
    match r.below(8) {
        0 => ("[".repeat(n).into_bytes(), "deep-flow-open"),
        1 => (format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes(), "deep-flow"),
        2 => (format!("{}x{}", "{a: ".repeat(n), "}".repeat(n)).into_bytes(), "deep-flow-map"),
        3 => ("- ".repeat(n * 10).into_bytes(), "deep-block-seq"),
        4 => {
            let n = n.min(400);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&" ".repeat(i));
                s.push_str("a:\n");
            }
            (s.into_bytes(), "deep-block-map")
        }
        5 => ("? ".repeat(n * 10).into_bytes(), "deep-explicit-key"),
        6 => (format!("{}\n", "? - ".repeat(n * 4)).into_bytes(), "deep-mixed"),
        _ => ("&a !t ".repeat(n).into_bytes(), "many-properties"),
    }
}

impl Check for Totality {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        "any bytes (texts of every generator class, random bytes, damaged and foreign encodings, deep nesting up to 80 000 levels, large inputs on a small stack) through the parser, the scanner and the document loader, with random input chunking, forced encodings, and 20 further calls after the end or the error; non-trivial when at least two calls returned something; distinct by input"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_000_000, thorough: 14_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    // aux: [mode of chunking, param, seed, forced encoding]
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i;
        if r.chance(1, 250) {
            let (b, l) = deep(r);
            i = Input::new(l);
            i.bytes = b;
        } else if r.chance(1, 12) {
            let n = r.below(60);
            i = Input::new("random-bytes");
            i.bytes = (0..n).map(|_| r.next() as u8).collect();
        } else {
            i = gen_read(r, t);
            if r.chance(1, 8) {
                gen_yaml::damage(r, &mut i.bytes);
            }
        }
        i.aux = vec![r.below(6) as u64, r.below(10000) as u64, r.next() >> 40, if r.chance(1, 10) { r.below(4) as u64 } else { 0 }];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let cap = sut::cap_for(n);
        let enc = (i.a(3) % 4) as u8;
        let mut seen = 0;
        let rd = || chunked(&i.bytes, i.a(0), i.a(1), i.a(2));
        for which in ["parse", "scan", "load", "parser iterator", "scanner iterator"] {
            let r = sut::guarded(|| -> Result<usize, V> {
                let reader = rd();
                let stats = reader.stats.clone();
                let runaway = |k: usize| bad(format!("{which}: more than {cap} results from {n} bytes"), format!("{k}"));
                let mut k = 0usize;
                match which {
                    "parse" | "load" | "parser iterator" => {
                        let mut p = ys::Parser::new();
                        p.set_input(reader);
                        if enc != 0 {
                            p.set_encoding(sut::enc_to(enc));
                        }
                        match which {
                            "parse" => {
                                let t = sut::events_from(&mut p, cap);
                                k = t.items.len();
                                if t.capped {
                                    return Err(runaway(k));
                                }
                                for _ in 0..20 {
                                    let _ = p.parse();
                                }
                            }
                            "load" => {
                                let t = sut::load_from(&mut p, cap);
                                k = t.docs.len();
                                if t.capped {
                                    return Err(runaway(k));
                                }
                                for _ in 0..20 {
                                    let _ = ys::Document::load(&mut p);
                                }
                            }
                            _ => {
                                for e in &mut p {
                                    k += 1;
                                    let _ = e;
                                    if k > cap {
                                        return Err(runaway(k));
                                    }
                                }
                                for _ in 0..20 {
                                    let _ = p.next();
                                }
                            }
                        }
                    }
                    _ => {
                        let mut p = ys::Scanner::new();
                        p.set_input(reader);
                        if enc != 0 {
                            p.set_encoding(sut::enc_to(enc));
                        }
                        if which == "scan" {
                            let t = sut::tokens_from(&mut p, cap);
                            k = t.items.len();
                            if t.capped {
                                return Err(runaway(k));
                            }
                            for _ in 0..20 {
                                let _ = ys::Scanner::scan(&mut p);
                            }
                        } else {
                            for e in &mut p {
                                k += 1;
                                let _ = e;
                                if k > cap {
                                    return Err(runaway(k));
                                }
                            }
                            for _ in 0..20 {
                                let _ = p.next();
                            }
                        }
                    }
                }
                if stats.fills_at_eof.get() > 1000 + 8 * n as u64 {
                    return Err(bad(format!("{which}: polls the end of the input without bound"), format!("{}", stats.fills_at_eof.get())));
                }
                Ok(k)
            });
            match r {
                Ok(Ok(k)) => {
                    seen += k;
                    cx.count(&format!("results from {which}"), k as u64);
                }
                Ok(Err(v)) => return v,
                Err(p) => {
                    // The location is part of the message; keep the class without line numbers.
                    let class = p.rsplit_once(':').map_or(p.clone(), |x| x.0.to_string());
                    return bad(format!("{which} panicked: {class}"), p);
                }
            }
        }
        cx.shape(fnv(format!("{} {}", i.label, seen.min(200)).as_bytes()));
        V::Ok(seen >= 2)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["termination is observed as: at most 8n+64 results and a bounded number of reads at the end of input, and no case needing 100 s of CPU time (cases take microseconds)"]
    }
}

// ================================================================ C06 chunking
pub struct Chunking;
const KINDS: &[std::io::ErrorKind] = &[
    std::io::ErrorKind::Other,
    std::io::ErrorKind::UnexpectedEof,
    std::io::ErrorKind::BrokenPipe,
    std::io::ErrorKind::InvalidData,
    std::io::ErrorKind::TimedOut,
    std::io::ErrorKind::WouldBlock,
    std::io::ErrorKind::ConnectionReset,
];

fn events_of<R: BufRead>(r: R, enc: u8, n: usize) -> Result<EvTrace, String> {
    sut::guarded(|| {
        let mut p = ys::Parser::new();
        p.set_input(r);
        if enc != 0 {
            p.set_encoding(sut::enc_to(enc));
        }
        sut::events_from(&mut p, sut::cap_for(n))
    })
}

/// Equality up to read-ahead: with a reader error in play, the fewer items must be a prefix of the
/// more, and both sides must end in an error.
fn same_modulo_readahead<T: PartialEq + std::fmt::Debug>(what: &str, broken: bool, whole: &Trace<T>, cut: &Trace<T>) -> Result<(), V> {
    if !is_reader(&whole.err) && !is_reader(&cut.err) {
        return trace_eq(what, whole, cut);
    }
    for (x, y) in whole.items.iter().zip(&cut.items) {
        if x != y {
            return Err(bad(what, format!("{}\nvs {}", short(x), short(y))));
        }
    }
    match (&whole.err, &cut.err) {
        (Some(a), Some(b)) if a.kind == K::Reader && b.kind == K::Reader => {
            // The place is exact; the wording may depend on where a piece of the input ends.
            let place = |t: &str| t.rsplit("offset ").next().and_then(|x| x.split(',').next()).map(str::to_string);
            if place(&a.text) != place(&b.text) {
                return Err(bad(format!("{what} (reader error)"), format!("{} vs {}", a.text, b.text)));
            }
        }
        // Less read-ahead finds an error in the structure first.
        (Some(a), Some(b)) if broken && a.kind != K::Io && b.kind != K::Io => {}
        (a, b) => return Err(bad(what, format!("ends {} vs {}", short(a), short(b)))),
    }
    Ok(())
}

impl Check for Chunking {
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        "an input of any class and encoding is read whole and then through a reader that hands it out in pieces (1..9 bytes, random, explicit cuts, BufReader of small capacity, chained readers, with Interrupted results in between); half of the cases instead fail with an injected I/O error at a chosen offset; non-trivial when the input has at least two bytes and produced a document event; distinct by input and plan"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 875_000, thorough: 12_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = vec![];
        for (k, s) in seeds().into_iter().enumerate() {
            for mode in [1u64, 2] {
                let mut i = s.clone();
                i.aux = vec![0, mode, 0, k as u64, 0, 0, 0];
                v.push(i);
            }
        }
        for (k, mut i) in crate::vast::texts().into_iter().enumerate() {
            i.aux = vec![0, 1 + k as u64 % 4, 7 * k as u64, k as u64, 0, 0, 0];
            v.push(i);
        }
        v
    }
    // aux: [what, mode, param, seed, enc, fault position, fault kind]
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i = gen_read(r, t);
        if r.chance(1, 3) {
            if let Ok(s) = String::from_utf8(i.bytes.clone()) {
                // More multi-byte characters at boundaries, and other encodings.
                let s: String = s.chars().flat_map(|c| if r.chance(1, 12) { vec![c, *r.pick(&['é', '漢', '😀', '\u{85}'])] } else { vec![c] }).collect();
                i.bytes = match r.below(4) {
                    0 => gen_yaml::to_utf16(&s, false, true),
                    1 => gen_yaml::to_utf16(&s, true, true),
                    _ => s.into_bytes(),
                };
                i.aux.clear();
            }
        }
        if r.chance(1, 10) {
            gen_yaml::damage(r, &mut i.bytes);
        }
        let enc = i.a(0);
        let n = i.bytes.len();
        let pos = if n > 0 && r.chance(3, 4) { r.below(n + 1) } else { n };
        i.aux = vec![r.below(8) as u64, 1 + r.below(4) as u64, r.below(10000) as u64, r.next() >> 40, enc, pos as u64, r.below(KINDS.len()) as u64];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let enc = (i.a(4) % 4) as u8;
        let mk = || chunked(&i.bytes, i.a(1), i.a(2), i.a(3));
        let what = i.a(0) % 8;
        let whole = tri!(events_of(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        let broken = malformed(&i.bytes, enc).is_some();
        let nt = n >= 2 && whole.items.len() > 1;
        if what >= 4 {
            return self.fault(i, cx, &whole, nt);
        }
        cx.count("events compared", whole.items.len() as u64);
        let b = match what {
            0 | 1 => {
                let rd = mk().interrupts(if what == 1 { 60 } else { 0 });
                let st = rd.stats.clone();
                let t = tri!(events_of(rd, enc, n).map_err(|p| bad("panic with chunked input", p)));
                cx.count("reads", st.fills.get());
                cx.count("interrupted reads", st.interrupts.get());
                t
            }
            2 if i.a(3) % 5 == 3 => {
                // The other way to give a string.
                cx.count("string inputs", 1);
                let mut data = &i.bytes[..];
                let mut again = &i.bytes[..];
                let (t, k) = tri!(sut::guarded(|| {
                    let mut p = ys::Parser::new();
                    p.set_input_string(&mut data);
                    let mut s = ys::Scanner::new();
                    s.set_input_string(&mut again);
                    if enc != 0 {
                        p.set_encoding(sut::enc_to(enc));
                        s.set_encoding(sut::enc_to(enc));
                    }
                    (sut::events_from(&mut p, sut::cap_for(n)), sut::tokens_from(&mut s, sut::cap_for(n)))
                })
                .map_err(|p| bad("panic with a string input", p)));
                let x = tri!(sut::scan_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
                tri!(same_modulo_readahead("tokens depend on how a string is given", broken, &x, &k));
                t
            }
            2 if i.a(3) % 5 == 4 => {
                // Readers behind a pointer, with and without an end of their own.
                cx.count("readers behind pointers", 1);
                use std::io::{BufRead, Read};
                let mut rd = mk();
                let a: Box<dyn BufRead + '_> = Box::new(std::io::Cursor::new(&i.bytes));
                let b: &mut dyn BufRead = &mut rd;
                let c = (&i.bytes[..]).take(n as u64);
                match i.a(2) % 4 {
                    0 => tri!(events_of(a, enc, n).map_err(|p| bad("panic with a boxed reader", p))),
                    1 => tri!(events_of(b, enc, n).map_err(|p| bad("panic with a borrowed reader", p))),
                    2 => tri!(events_of(c, enc, n).map_err(|p| bad("panic with a limited reader", p))),
                    _ => tri!(events_of(BufReader::new(a), enc, n).map_err(|p| bad("panic with a buffer upon a buffer", p))),
                }
            }
            2 => {
                let cap = 1 + (i.a(2) % 37) as usize;
                cx.count("small BufReaders", 1);
                tri!(events_of(BufReader::with_capacity(cap, &i.bytes[..]), enc, n).map_err(|p| bad("panic with chunked input", p)))
            }
            _ => {
                let k = (i.a(5) as usize).min(n);
                cx.count("chained readers", 1);
                use std::io::Read;
                tri!(events_of((&i.bytes[..k]).chain(mk_tail(&i.bytes[k..], i)), enc, n).map_err(|p| bad("panic with chunked input", p)))
            }
        };
        tri!(same_modulo_readahead("events depend on how the input is chunked", broken, &whole, &b));
        // The same through the scanner and the loader.
        if i.a(3) % 3 == 0 {
            let x = tri!(sut::scan_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
            let y = tri!(sut::scan_with(mk(), enc, n).map_err(|p| bad("panic", p)));
            tri!(same_modulo_readahead("tokens depend on how the input is chunked", broken, &x, &y));
            cx.count("token streams compared", 1);
        } else if i.a(3) % 3 == 1 {
            let x = tri!(sut::load_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
            let y = tri!(sut::load_with(mk(), enc, n).map_err(|p| bad("panic", p)));
            if is_reader(&x.err) || is_reader(&y.err) {
                for (a, b) in x.docs.iter().zip(&y.docs) {
                    if a != b {
                        return bad("documents depend on how the input is chunked", format!("{}\nvs {}", short(a), short(b)));
                    }
                }
                if x.err.is_none() || y.err.is_none() {
                    return bad("documents depend on how the input is chunked", format!("{}\nvs {}", short(&x.err), short(&y.err)));
                }
            } else {
                tri!(load_eq("documents depend on how the input is chunked", &x, &y));
            }
            cx.count("document streams compared", 1);
        }
        cx.shape(kinds_shape(&whole.items) ^ i.a(1).wrapping_mul(77) ^ what);
        V::Ok(nt)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("events compared", 1000), ("reads", 1000)]
    }
}
fn mk_tail<'a>(d: &'a [u8], i: &Input) -> ChunkReader<'a> {
    chunked(d, i.a(1), i.a(2), i.a(3))
}

impl Chunking {
    fn fault_tokens(&self, rd: ChunkReader, n: usize, enc: u8, i: &Input, cx: &mut Ctx) -> Result<(), V> {
        let whole = sut::scan_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p))?;
        let st = rd.stats.clone();
        let r = sut::guarded(|| {
            let mut p = ys::Scanner::new();
            p.set_input(rd);
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let t = sut::tokens_from(&mut p, sut::cap_for(n));
            let after: Vec<String> = (0..3).map(|_| ys::Scanner::scan(&mut p)).filter(|x| !matches!(x, Ok(t) if matches!(t.data, ys::TokenData::StreamEnd))).map(|x| format!("{x:?}")).collect();
            (t, after)
        });
        let (t, after) = r.map_err(|p| bad("panic on an input error", p))?;
        if st.errors.get() == 0 {
            return Ok(());
        }
        cx.count("input faults delivered to a scanner", 1);
        if !after.is_empty() {
            return Err(bad("something follows the I/O error of a scanner", format!("{after:?}")));
        }
        for (x, y) in whole.items.iter().zip(&t.items) {
            if x != y {
                return Err(bad("tokens before an input error differ from those of the whole input", format!("{}\nvs {}", short(x), short(y))));
            }
        }
        match &t.err {
            None => Err(bad("a scanner swallowed an input error", format!("{} tokens", t.items.len()))),
            Some(e) if e.kind == K::Io || whole.err.as_ref().is_some_and(|w| w.text == e.text || w.kind == K::Reader) => Ok(()),
            Some(e) => Err(bad("an input error of a scanner turned into another error", e.text.clone())),
        }
    }
    fn fault_documents(&self, rd: ChunkReader, n: usize, enc: u8, i: &Input, cx: &mut Ctx) -> Result<(), V> {
        let whole = sut::load_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p))?;
        let st = rd.stats.clone();
        let r = sut::guarded(|| {
            let mut p = ys::Parser::new();
            p.set_input(rd);
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let t = sut::load_from(&mut p, sut::cap_for(n));
            let after: Vec<String> =
                (0..3).map(|_| ys::Document::load(&mut p)).filter_map(|x| x.ok()).filter_map(|mut d| d.get_root_node().map(|n| format!("{n:?}"))).collect();
            (t, after)
        });
        let (t, after) = r.map_err(|p| bad("panic on an input error", p))?;
        if st.errors.get() == 0 {
            return Ok(());
        }
        cx.count("input faults delivered to a loader", 1);
        if !after.is_empty() {
            return Err(bad("a document follows the I/O error of a loader", format!("{after:?}")));
        }
        for (x, y) in whole.docs.iter().zip(&t.docs) {
            if x != y {
                return Err(bad("documents before an input error differ from those of the whole input", format!("{}\nvs {}", short(x), short(y))));
            }
        }
        match &t.err {
            None => Err(bad("a loader swallowed an input error", format!("{} documents", t.docs.len()))),
            Some(e) if e.kind == K::Io || whole.err.as_ref().is_some_and(|w| w.text == e.text || w.kind == K::Reader) => Ok(()),
            Some(e) => Err(bad("an input error of a loader turned into another error", e.text.clone())),
        }
    }
    fn fault(&self, i: &Input, cx: &mut Ctx, whole: &EvTrace, nt: bool) -> V {
        let n = i.bytes.len();
        let enc = (i.a(4) % 4) as u8;
        let pos = (i.a(5) as usize).min(n);
        let kind = KINDS[i.a(6) as usize % KINDS.len()];
        // Some sources fail once and would go on; some also interrupt.
        let once = i.a(3) & 8 != 0;
        let mk = || chunked(&i.bytes, i.a(1), i.a(2), i.a(3)).fail_at(pos, kind).once(once).interrupts(if i.a(3) & 48 == 0 { 40 } else { 0 });
        match i.a(3) % 8 {
            0 => tri!(self.fault_tokens(mk(), n, enc, i, cx)),
            1 => tri!(self.fault_documents(mk(), n, enc, i, cx)),
            _ => {}
        }
        let rd = mk();
        let st = rd.stats.clone();
        let mut raw: Option<ys::Error> = None;
        let r = sut::guarded(|| {
            let mut p = ys::Parser::new();
            p.set_input(rd);
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let mut t = EvTrace::new();
            loop {
                match p.parse() {
                    Ok(e) => {
                        let (s, en) = (sut::mk(e.start_mark), sut::mk(e.end_mark));
                        let v = sut::ev_from(e.data);
                        let end = v == Ev::StreamEnd;
                        t.items.push(At { v, s, e: en });
                        if end || t.items.len() > sut::cap_for(n) {
                            break;
                        }
                    }
                    Err(e) => {
                        t.err = Some(sut::err(&e));
                        raw = Some(e);
                        break;
                    }
                }
            }
            // Nothing but the end may follow.
            for _ in 0..3 {
                match p.parse() {
                    Ok(e) if e.data == ys::EventData::StreamEnd => {}
                    x => return Err(format!("{x:?}")),
                }
            }
            Ok(t)
        });
        let t = match r {
            Ok(Ok(t)) => t,
            Ok(Err(e)) => return bad("something follows the I/O error", e),
            Err(p) => return bad("panic on an input error", p),
        };
        for (x, y) in whole.items.iter().zip(&t.items) {
            if x != y {
                return bad("events before an input error differ from those of the whole input", format!("{}\nvs {}", short(x), short(y)));
            }
        }
        if t.items.len() > whole.items.len() && !is_reader(&whole.err) {
            return bad("an input error produced extra events", short(&t.items.last()));
        }
        if st.errors.get() == 0 {
            // The stream was decided before the fault: exactly as without it.
            cx.count("faults not reached", 1);
            return match same_modulo_readahead("events differ though the fault was not reached", malformed(&i.bytes, enc).is_some(), whole, &t) {
                Ok(()) => V::Ok(nt),
                Err(v) => v,
            };
        }
        cx.count("input faults delivered", 1);
        cx.count("input faults after which the source would go on", once as u64);
        match (&t.err, raw) {
            (Some(e), Some(raw)) if e.kind == K::Io => {
                use std::error::Error as _;
                let src = raw.source().and_then(|s| s.downcast_ref::<std::io::Error>());
                if !src.is_some_and(|e| sut::is_injected(e, kind, pos)) {
                    return bad("the I/O error is not the source of the reported error", format!("{src:?}"));
                }
                match std::io::Error::try_from(raw) {
                    Ok(io) if sut::is_injected(&io, kind, pos) => {}
                    Ok(io) => return bad("the I/O error was changed", format!("{:?} {io}", io.kind())),
                    Err(_) => return bad("an I/O error does not convert back", ""),
                }
                cx.count("I/O errors returned", 1);
            }
            (Some(e), _) => {
                // An error of the text itself, found before the fault was met.
                let same = match &whole.err {
                    Some(w) => w.text == e.text || w.kind == K::Reader,
                    None => false,
                };
                if !same {
                    return bad("an input error turned into another error", format!("{} (whole input: {})", e.text, short(&whole.err)));
                }
            }
            (None, _) => return bad("an input error was swallowed", format!("{} events, last {}", t.items.len(), short(&t.items.last()))),
        }
        cx.shape(fnv(format!("{:?} {}", kind, t.items.len()).as_bytes()));
        V::Ok(nt)
    }
}

// ================================================================ C07 encodings
pub struct Encodings;
impl Check for Encodings {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        "one text, encoded as UTF-8, UTF-8 with a byte order mark, UTF-16LE and UTF-16BE with a mark, and the same without a mark under an explicit encoding; each read through a random chunking; non-trivial when the text has a non-ASCII character or a document event; distinct by text"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 400_000, thorough: 5_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let (s, l) = gen_yaml::any_text(r, false);
        let s: String = if r.bool() { s.chars().flat_map(|c| if r.chance(1, 10) { vec![c, *r.pick(&['é', '漢', '😀', '\u{85}', '\u{2028}', '\u{10ffff}', '\u{fffd}'])] } else { vec![c] }).collect() } else { s };
        let mut i = Input::new(l);
        i.bytes = s.into_bytes();
        i.aux = vec![r.below(5) as u64, r.below(10000) as u64, r.next() >> 40];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let Ok(text) = std::str::from_utf8(&i.bytes) else { return V::Skip("shrunk to invalid UTF-8") };
        let text = text.trim_start_matches('\u{feff}');
        if malformed(text.as_bytes(), 1).is_some() {
            return V::Skip("text has characters that no stream may contain");
        }
        let mut with_bom = vec![0xef, 0xbb, 0xbf];
        with_bom.extend(text.bytes());
        let forms: Vec<(&str, Vec<u8>, u8, u8)> = vec![
            ("UTF-8 with mark", with_bom, 0, 1),
            ("UTF-16LE with mark", gen_yaml::to_utf16(text, false, true), 0, 2),
            ("UTF-16BE with mark", gen_yaml::to_utf16(text, true, true), 0, 3),
            ("explicit UTF-8", text.as_bytes().to_vec(), 1, 1),
            ("explicit UTF-16LE", gen_yaml::to_utf16(text, false, false), 2, 2),
            ("explicit UTF-16BE", gen_yaml::to_utf16(text, true, false), 3, 3),
        ];
        let base = tri!(sut::parse(text.as_bytes()).map_err(|p| bad("panic", p)));
        let base_t = tri!(sut::scan(text.as_bytes()).map_err(|p| bad("panic", p)));
        if base.items.first().map(|x| &x.v) != Some(&Ev::StreamStart(1)) {
            return bad("UTF-8 input is not announced as UTF-8", short(&base.items.first()));
        }
        for (name, bytes, enc, announced) in forms {
            let rd = chunked(&bytes, i.a(0), i.a(1), i.a(2));
            let mut t = tri!(sut::parse_with(rd, enc, bytes.len()).map_err(|p| bad(format!("panic on {name}"), p)));
            match t.items.first_mut() {
                Some(At { v: v @ Ev::StreamStart(_), .. }) if *v == Ev::StreamStart(announced) => *v = Ev::StreamStart(1),
                x => return bad(format!("{name}: wrong encoding announced"), format!("{x:?}")),
            }
            tri!(trace_eq(&format!("{name} reads differently from UTF-8"), &base, &t));
            let mut k = tri!(sut::scan_with(chunked(&bytes, i.a(0), i.a(1), i.a(2)), enc, bytes.len()).map_err(|p| bad(format!("panic on {name}"), p)));
            if let Some(At { v: v @ Tok::StreamStart(_), .. }) = k.items.first_mut() {
                *v = Tok::StreamStart(1);
            }
            tri!(trace_eq(&format!("{name} scans differently from UTF-8"), &base_t, &k));
            cx.count(name, 1);
        }
        cx.count("events", base.items.len() as u64);
        cx.shape(kinds_shape(&base.items));
        V::Ok(!text.is_ascii() || base.items.len() > 2)
    }
}

// ================================================================ C08 malformed input
pub struct Malformed;
impl Check for Malformed {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "texts damaged at one or two places (truncation, overwritten, inserted and deleted bytes, over-long, surrogate and out-of-range sequences, unpaired surrogates, forbidden characters) in UTF-8 and UTF-16, and undamaged ones, through random chunkings; the oracle is an independent decoder (std); non-trivial when the input is malformed or not ASCII; distinct by input"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    // aux: [mode, param, seed, enc]
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let (s, l) = gen_yaml::any_text(r, false);
        let mut s: String = if r.bool() { s.chars().flat_map(|c| if r.chance(1, 10) { vec![c, *r.pick(&['é', '漢', '😀', '\u{85}', '\u{fffd}', '\u{feff}'])] } else { vec![c] }).collect() } else { s };
        if r.chance(1, 5) {
            let c = loop {
                let c = match r.below(3) {
                    0 => char::from_u32(r.below(0x100) as u32),
                    1 => char::from_u32(*r.pick(&[0xfffe, 0xffff, 0xfffd, 0xfeff, 0xd7ff, 0xe000, 0x10ffff, 0x10000, 0x1fffe, 0x85, 0xa0, 0x9f, 0x80, 0x7f, 0x7e])),
                    _ => char::from_u32(r.below(0x110000) as u32),
                };
                if let Some(c) = c {
                    break c;
                }
            };
            let p = r.below(s.chars().count() + 1);
            s = s.chars().take(p).chain([c]).chain(s.chars().skip(p)).collect();
        }
        let mut i = Input::new(l);
        let mut enc = 0;
        i.bytes = match r.below(6) {
            0 | 1 => {
                let be = r.bool();
                if r.chance(1, 5) {
                    enc = 2 + be as u64;
                    gen_yaml::to_utf16(&s, be, r.bool())
                } else {
                    gen_yaml::to_utf16(&s, be, true)
                }
            }
            2 => {
                let mut b = vec![0xef, 0xbb, 0xbf];
                b.extend(s.bytes());
                b
            }
            _ => s.into_bytes(),
        };
        if r.chance(2, 3) {
            gen_yaml::damage(r, &mut i.bytes);
            i.label.push_str("+damage");
        }
        i.aux = vec![r.below(5) as u64, r.below(10000) as u64, r.next() >> 40, enc];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let enc = (i.a(3) % 4) as u8;
        let n = i.bytes.len();
        let m = malformed(&i.bytes, enc);
        for pass in 0..2 {
            let rd = if pass == 0 { ChunkReader::whole(&i.bytes) } else { chunked(&i.bytes, i.a(0), i.a(1), i.a(2)) };
            let t = tri!(sut::parse_with(rd, enc, n).map_err(|p| bad("panic", p)));
            let sc = tri!(sut::scan_with(if pass == 0 { ChunkReader::whole(&i.bytes) } else { chunked(&i.bytes, i.a(0), i.a(1), i.a(2)) }, enc, n).map_err(|p| bad("panic", p)));
            match m {
                None => {
                    for e in [&t.err, &sc.err].into_iter().flatten() {
                        if e.kind == K::Reader || e.kind == K::Io {
                            return bad("well-formed input rejected by the reader", e.text.clone());
                        }
                    }
                    cx.count("well-formed inputs", 1);
                }
                Some((off, value, class)) => {
                    for (which, e, done) in [
                        ("parse", &t.err, t.items.last().map(|x| x.v == Ev::StreamEnd)),
                        ("scan", &sc.err, sc.items.last().map(|x| x.v == Tok::StreamEnd)),
                    ] {
                        let Some(e) = e else {
                            return bad(format!("{which}: malformed input accepted ({class})"), format!("offset {off} value {value}; end seen: {done:?}"));
                        };
                        if e.kind == K::Io {
                            return bad(format!("{which}: malformed input reported as an I/O error"), e.text.clone());
                        }
                        if e.kind == K::Reader {
                            let want = format!("(offset {off}, value {value})");
                            let place = format!("(offset {off}, ");
                            // A character cut off by the end of a piece of input, or a lone unit, may be
                            // described by its first byte or as incomplete; the place is exact.
                            let ok = if class == "char" { e.text.ends_with(&want) } else { e.text.contains(&place) };
                            if !ok {
                                return bad(format!("{which}: reader error points elsewhere ({class})"), format!("{} ; expected {want}", e.text));
                            }
                            cx.count(&format!("reader error: {}", e.problem), 1);
                        }
                    }
                    // Nothing at or after the bad place may have been delivered.
                    if decode_prefix_len(&i.bytes, enc, off) < t.items.iter().map(|x| x.e.i).max().unwrap_or(0) {
                        return bad("events reach beyond the malformed place", short(&t.items.last()));
                    }
                    cx.count("malformed inputs rejected", 1);
                }
            }
            cx.shape(kinds_shape(&t.items) ^ m.map_or(0, |x| fnv(x.2.as_bytes())));
        }
        V::Ok(m.is_some() || !i.bytes.is_ascii())
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("malformed inputs rejected", 100), ("well-formed inputs", 100)]
    }
}
/// UTF-8 length of the text before byte offset `off`.
fn decode_prefix_len(b: &[u8], enc: u8, off: usize) -> u64 {
    decode(&b[..off], enc).map_or(u64::MAX, |s| s.len() as u64)
}

// ================================================================ C09 event and token grammar
pub struct Grammar;

pub fn grammar(items: &[At<Ev>], complete: bool) -> Result<(), String> {
    let mut stack: Vec<(bool, usize)> = vec![]; // (is mapping, children)
    let mut in_doc = false;
    let mut roots = 0;
    let mut ended = false;
    for (k, it) in items.iter().enumerate() {
        let e = |m: &str| Err(format!("#{k} {}: {m}", short(&it.v)));
        if ended {
            return e("after the end of the stream");
        }
        if (k == 0) != matches!(it.v, Ev::StreamStart(_)) {
            return e("stream start must come first and once");
        }
        let node = matches!(it.v, Ev::Alias(_) | Ev::Scalar { .. } | Ev::SeqStart { .. } | Ev::MapStart { .. });
        if node {
            if !in_doc {
                return e("node outside a document");
            }
            match stack.last_mut() {
                Some(x) => x.1 += 1,
                None => {
                    roots += 1;
                    if roots > 1 {
                        return e("second root node");
                    }
                }
            }
        }
        match &it.v {
            Ev::StreamStart(enc) => {
                if !(1..=3).contains(enc) {
                    return e("no concrete encoding");
                }
            }
            Ev::StreamEnd => {
                if in_doc {
                    return e("stream ends inside a document");
                }
                ended = true;
            }
            Ev::DocStart { tags, ver, .. } => {
                if in_doc {
                    return e("nested document");
                }
                in_doc = true;
                roots = 0;
                if let Some((a, b)) = ver {
                    if *a != 1 || *b < 1 {
                        return e("impossible version");
                    }
                }
                let mut h: Vec<_> = tags.iter().map(|t| &t.0).collect();
                h.sort();
                let n = h.len();
                h.dedup();
                if h.len() != n {
                    return e("duplicate tag handle");
                }
                if tags.iter().any(|t| !t.0.starts_with('!') || !t.0.ends_with('!')) {
                    return e("bad tag handle");
                }
            }
            Ev::DocEnd { .. } => {
                if !in_doc || !stack.is_empty() || roots != 1 {
                    return e("document ends early");
                }
                in_doc = false;
            }
            Ev::Alias(a) => {
                if a.is_empty() {
                    return e("empty alias");
                }
            }
            Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
                if anchor.as_deref() == Some("") {
                    return e("empty anchor");
                }
                if !(1..=5).contains(style) {
                    return e("no concrete style");
                }
                if tag.is_none() && !plain && !quoted {
                    return e("neither tag nor implicit");
                }
                if *style == 1 && value.trim_matches([' ', '\t', '\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']) != value {
                    return e("plain value with outer blanks");
                }
            }
            Ev::SeqStart { anchor, tag, implicit, style } | Ev::MapStart { anchor, tag, implicit, style } => {
                if anchor.as_deref() == Some("") {
                    return e("empty anchor");
                }
                if *style != 1 && *style != 2 {
                    return e("no concrete style");
                }
                if *implicit != (tag.is_none() || tag.as_deref() == Some("")) {
                    return e("implicit flag contradicts the tag");
                }
                stack.push((matches!(it.v, Ev::MapStart { .. }), 0));
            }
            Ev::SeqEnd => match stack.pop() {
                Some((false, _)) => {}
                _ => return e("no open sequence"),
            },
            Ev::MapEnd => match stack.pop() {
                Some((true, n)) if n % 2 == 0 => {}
                Some((true, _)) => return e("key without value"),
                _ => return e("no open mapping"),
            },
        }
    }
    if complete && !ended {
        return Err("no end of stream".into());
    }
    Ok(())
}

fn token_grammar(items: &[At<Tok>], complete: bool, scan_only: bool) -> Result<(), String> {
    let mut stack = vec![];
    let mut ended = false;
    for (k, it) in items.iter().enumerate() {
        let e = |m: &str| Err(format!("#{k} {}: {m}", short(&it.v)));
        if ended {
            return e("after the end of the stream");
        }
        if (k == 0) != matches!(it.v, Tok::StreamStart(_)) {
            return e("stream start must come first and once");
        }
        match &it.v {
            Tok::BlockSeqStart | Tok::BlockMapStart => stack.push(0),
            Tok::BlockEnd => {
                if stack.pop() != Some(0) {
                    return e("no open block collection");
                }
            }
            Tok::DocStart | Tok::DocEnd if !scan_only => {
                if !stack.is_empty() {
                    return e("document marker inside a collection");
                }
            }
            Tok::StreamEnd => ended = true,
            Tok::Anchor(a) | Tok::Alias(a) => {
                if a.is_empty() {
                    return e("empty name");
                }
            }
            Tok::Scalar(_, st) => {
                if !(1..=5).contains(st) {
                    return e("no concrete style");
                }
            }
            _ => {}
        }
    }
    if complete && (!ended || !stack.is_empty()) {
        return Err("stream not closed".into());
    }
    Ok(())
}

impl Check for Grammar {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        READ_RULE
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        gen_read(r, t)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let enc = (i.a(0) % 4) as u8;
        let t = tri!(sut::parse_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        let s = tri!(sut::scan_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        count_events(cx, &t);
        if let Err(m) = grammar(&t.items, t.err.is_none()) {
            return bad("event stream breaks the event grammar", m);
        }
        if let Err(m) = token_grammar(&s.items, t.err.is_none() && s.err.is_none(), t.err.is_some()) {
            return bad("token stream breaks the token grammar", m);
        }
        if t.err.is_none() && s.err.is_some() {
            return bad("the parser accepts what the scanner rejects", short(&s.err));
        }
        // The iterators are the calls, and are fused.
        let r = sut::guarded(|| {
            let mut p = ys::Parser::new();
            p.set_input(ChunkReader::whole(&i.bytes));
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let mut k = 0;
            let mut done = false;
            for step in 0..sut::cap_for(n) + 5 {
                match p.next() {
                    Some(Ok(e)) => {
                        if done {
                            return Err(format!("iterator resumes with {e:?}"));
                        }
                        let (st, en) = (sut::mk(e.start_mark), sut::mk(e.end_mark));
                        let v = sut::ev_from(e.data);
                        match t.items.get(k) {
                            Some(x) if x.v == v && x.s == st && x.e == en => {}
                            x => return Err(format!("iterator #{step} gives {v:?}, parse() gave {x:?}")),
                        }
                        k += 1;
                    }
                    Some(Err(e)) => {
                        if done || t.err.as_ref().map(|x| &x.text) != Some(&e.to_string()) {
                            return Err(format!("iterator error {e}"));
                        }
                        done = true;
                    }
                    None => {
                        done = true;
                        if step > t.items.len() + 4 {
                            break;
                        }
                    }
                }
            }
            if k != t.items.len() {
                return Err(format!("iterator gave {k} events, parse() {}", t.items.len()));
            }
            for _ in 0..3 {
                match p.parse() {
                    Ok(e) if e.data == ys::EventData::StreamEnd => {}
                    x => return Err(format!("after the end: {x:?}")),
                }
            }
            let mut sc = ys::Scanner::new();
            sc.set_input(ChunkReader::whole(&i.bytes));
            if enc != 0 {
                sc.set_encoding(sut::enc_to(enc));
            }
            let mut k = 0;
            let mut err = None;
            for x in sc.by_ref() {
                match x {
                    Ok(x) => {
                        if s.items.get(k).map(|y| &y.v) != Some(&sut::tok_from(x.data)) {
                            return Err(format!("token iterator differs at #{k}"));
                        }
                        k += 1;
                    }
                    Err(e) => {
                        if err.is_some() {
                            return Err("token iterator repeats errors".into());
                        }
                        err = Some(e.to_string());
                    }
                }
                if k > s.items.len() {
                    return Err("token iterator goes on".into());
                }
            }
            if k != s.items.len() || err != s.err.as_ref().map(|e| e.text.clone()) {
                return Err("token iterator ends differently".into());
            }
            for _ in 0..3 {
                if sc.next().is_some() {
                    return Err("token iterator resumes".into());
                }
                match ys::Scanner::scan(&mut sc) {
                    Ok(x) if x.data == ys::TokenData::StreamEnd => {}
                    x => return Err(format!("token after the end: {x:?}")),
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => {}
            Ok(Err(m)) => return bad("iteration differs from repeated calls", m),
            Err(p) => return bad("panic", p),
        }
        cx.count("tokens", s.items.len() as u64);
        V::Ok(t.items.len() > 2)
    }
}

// ================================================================ C10 documents
pub struct Load;

/// Compose documents from events, independently.
pub fn compose(t: &EvTrace) -> (Vec<DocM>, Option<(String, Mk)>) {
    let mut docs = vec![];
    let mut d: Option<DocM> = None;
    let mut stack: Vec<usize> = vec![];
    let mut anchors: Vec<(String, usize)> = vec![];
    fn put(d: &mut DocM, stack: &[usize], id: i32) {
        if let Some(&p) = stack.last() {
            match &mut d.nodes[p].k {
                NodeK::Seq(v, _) => v.push(id),
                NodeK::Map(v, _) => {
                    if let Some(l) = v.last_mut().filter(|l| l.1 == 0) {
                        l.1 = id;
                    } else {
                        v.push((id, 0));
                    }
                }
                _ => {}
            }
        }
    }
    let tagged = |t: &Option<String>, def: &str| Some(if t.is_none() || t.as_deref() == Some("!") { def.to_string() } else { t.clone().unwrap() });
    for it in &t.items {
        let mut anchor_of = None;
        match &it.v {
            Ev::DocStart { ver, tags, implicit } => {
                d = Some(DocM { nodes: vec![], ver: *ver, tags: tags.clone(), si: *implicit, ei: false, s: it.s, e: it.e });
                anchors.clear();
            }
            Ev::DocEnd { implicit } => {
                let mut x = d.take().unwrap();
                x.ei = *implicit;
                x.e = it.e;
                docs.push(x);
            }
            Ev::Alias(a) => {
                let doc = d.as_mut().unwrap();
                match anchors.iter().find(|x| x.0 == *a) {
                    Some(x) => put(doc, &stack, x.1 as i32 + 1),
                    None => return (docs, Some(("found undefined alias".into(), it.s))),
                }
            }
            Ev::Scalar { anchor, tag, value, style, .. } => {
                let doc = d.as_mut().unwrap();
                doc.nodes.push(NodeM { k: NodeK::Scalar(value.clone(), *style), tag: tagged(tag, "tag:yaml.org,2002:str"), s: it.s, e: it.e });
                anchor_of = Some(anchor.clone());
            }
            Ev::SeqStart { anchor, tag, style, .. } => {
                let doc = d.as_mut().unwrap();
                doc.nodes.push(NodeM { k: NodeK::Seq(vec![], *style), tag: tagged(tag, "tag:yaml.org,2002:seq"), s: it.s, e: it.e });
                anchor_of = Some(anchor.clone());
            }
            Ev::MapStart { anchor, tag, style, .. } => {
                let doc = d.as_mut().unwrap();
                doc.nodes.push(NodeM { k: NodeK::Map(vec![], *style), tag: tagged(tag, "tag:yaml.org,2002:map"), s: it.s, e: it.e });
                anchor_of = Some(anchor.clone());
            }
            Ev::SeqEnd | Ev::MapEnd => {
                let p = stack.pop().unwrap();
                d.as_mut().unwrap().nodes[p].e = it.e;
            }
            _ => {}
        }
        if let Some(a) = anchor_of {
            let doc = d.as_mut().unwrap();
            let id = doc.nodes.len() - 1;
            if let Some(a) = a {
                if anchors.iter().any(|x| x.0 == a) {
                    return (docs, Some(("second occurrence".into(), it.s)));
                }
                anchors.push((a, id));
            }
            put(doc, &stack, id as i32 + 1);
            if matches!(it.v, Ev::SeqStart { .. } | Ev::MapStart { .. }) {
                stack.push(id);
            }
        }
    }
    (docs, None)
}

pub fn check_doc(d: &DocM) -> Result<(), String> {
    let n = d.nodes.len() as i32;
    for (k, x) in d.nodes.iter().enumerate() {
        let ok = |i: &i32| *i >= 1 && *i <= n;
        match &x.k {
            NodeK::No => return Err(format!("node {} is empty", k + 1)),
            NodeK::Scalar(..) => {}
            NodeK::Seq(v, _) => {
                if !v.iter().all(ok) {
                    return Err(format!("dangling item in node {}", k + 1));
                }
            }
            NodeK::Map(v, _) => {
                if !v.iter().all(|p| ok(&p.0) && ok(&p.1)) {
                    return Err(format!("dangling pair in node {}", k + 1));
                }
            }
        }
        if x.tag.as_deref().map_or(true, |t| t.is_empty() && false) {
            return Err(format!("node {} has no tag", k + 1));
        }
    }
    Ok(())
}

pub fn gen_docs(r: &mut Rng, t: Tier) -> Input {
    if r.chance(1, 3) {
        // Anchors and aliases in a small alphabet.
        let mut s = String::new();
        for _ in 0..r.range(1, 3) {
            if r.bool() {
                s.push_str("---\n");
            }
            let n = r.range(1, 8);
            for _ in 0..n {
                let a = r.below(4);
                let b = r.below(4);
                s.push_str(&match r.below(9) {
                    0 => format!("- &a{a} x\n"),
                    1 => format!("- *a{a}\n"),
                    2 => format!("- &a{a} [x, *a{b}, &a{b} y]\n"),
                    3 => format!("- &a{a} {{k: *a{b}, *a{a} : v}}\n"),
                    4 => format!("- &a{a}\n  - *a{a}\n  - &a{b}\n"),
                    5 => format!("- ? *a{a}\n  : &a{b} !t v\n"),
                    6 => format!("- &a{a} !!str\n"),
                    7 => format!("- {{a, ? b, : c, &a{a} : }}\n"),
                    _ => "- plain\n".to_string(),
                });
            }
            if r.chance(1, 3) {
                s.push_str("...\n");
            }
        }
        let mut i = Input::new("anchors");
        i.bytes = if r.chance(1, 4) { gen_yaml::mutate(r, &s).into_bytes() } else { s.into_bytes() };
        return i;
    }
    gen_read(r, t)
}

impl Check for Load {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "inputs as C02 plus anchor/alias-heavy streams; documents are compared with an independent composer run over the parser's own events and with libyaml's loader; non-trivial when a document with two or more nodes, or a composer error, was seen; distinct by input"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        gen_docs(r, t)
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let enc = (i.a(0) % 4) as u8;
        let t = tri!(sut::parse_with(ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        // Load all, then check what calls after the end give.
        let r = sut::guarded(|| {
            let mut p = ys::Parser::new();
            p.set_input(ChunkReader::whole(&i.bytes));
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let l = sut::load_from(&mut p, sut::cap_for(n));
            for _ in 0..3 {
                match ys::Document::load(&mut p) {
                    Ok(d) if d.nodes.is_empty() => {}
                    Ok(d) => return Err(format!("a document after the end: {d:?}")),
                    Err(e) => return Err(format!("an error after the end: {e}")),
                }
            }
            Ok(l)
        });
        let l = match r {
            Ok(Ok(l)) => l,
            Ok(Err(m)) => return bad("loading goes on after the end", m),
            Err(p) => return bad("panic", p),
        };
        let (docs, cerr) = compose(&t);
        for (k, (a, b)) in l.docs.iter().zip(&docs).enumerate() {
            if a != b {
                return bad("a document is not the composition of its events", format!("document #{k}\n{}\nexpected {}", short(a), short(b)));
            }
            if let Err(m) = check_doc(a) {
                return bad("a loaded document is inconsistent", m);
            }
            cx.count("nodes", a.nodes.len() as u64);
        }
        if l.docs.len() != docs.len() {
            return bad("the number of documents is wrong", format!("{} loaded, {} in the events", l.docs.len(), docs.len()));
        }
        match (&cerr, &l.err) {
            (Some((p, m)), Some(e)) => {
                if e.kind != K::Composer || e.problem != *p || e.pm != Some(*m) {
                    return bad("composer error expected", format!("{p} at {m:?}, got {}", short(e)));
                }
                cx.count(&format!("composer error: {p}"), 1);
            }
            (None, e) => {
                if e.as_ref().map(|e| &e.text) != t.err.as_ref().map(|e| &e.text) {
                    return bad("loading ends unlike parsing", format!("{} vs {}", short(e), short(&t.err)));
                }
            }
            (Some(c), None) => return bad("composer error missing", format!("{c:?}")),
        }
        cx.count("documents", l.docs.len() as u64);
        cx.shape(kinds_shape(&t.items));
        // And libyaml's loader.
        let b = cx.reference(|| crate::refl::load(&i.bytes, enc));
        if b.dirty || !escapes_clean(&i.bytes) {
            return V::Skip("tag escapes that are not UTF-8");
        }
        for (k, (a, b)) in l.docs.iter().zip(&b.docs).enumerate() {
            if a != b {
                return bad("a document differs from libyaml's", format!("document #{k}\n{}\nlibyaml {}", short(a), short(b)));
            }
        }
        if l.docs.len() != b.docs.len() && !is_reader(&l.err) && !is_reader(&b.err) {
            return bad("the number of documents differs from libyaml's", format!("{} vs {}", l.docs.len(), b.docs.len()));
        }
        tri!(err_same(&l.err, &b.err, true));
        V::Ok(l.docs.iter().any(|d| d.nodes.len() > 1) || cerr.is_some())
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("nodes", 1000)]
    }
}

// ================================================================ C12 bounded read-ahead
pub struct ReadAhead;
impl Check for ReadAhead {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "the input is handed out one byte at a time to both implementations (and in pieces to this one), and the number of bytes taken when each event, token and document is returned is compared; non-trivial when the stream has at least four events; distinct by input"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 750_000, thorough: 10_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts(), crate::vast::runs()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = Input::new("stream");
        if r.chance(1, 3) {
            // An interactive stream of small documents.
            let mut s = String::new();
            for _ in 0..r.range(2, 5) {
                s.push_str(*r.pick(&["---\n", "--- ", "", "...\n", "%YAML 1.1\n---\n"]));
                let b = 8;
                s.push_str(&gen_yaml::structured(r, b));
                s.push_str(*r.pick(&["\n", "\n...\n", "\n---\n", ""]));
            }
            i.bytes = s.into_bytes();
        } else {
            let (s, l) = gen_yaml::any_text(r, false);
            i = Input::new(l);
            i.bytes = s.into_bytes();
            if r.chance(1, 6) {
                let s = String::from_utf8_lossy(&i.bytes).into_owned();
                i.bytes = gen_yaml::to_utf16(&s, r.bool(), true);
            }
        }
        let n = i.bytes.len();
        i.aux = if r.chance(1, 4) {
            // A piece per line.
            i.bytes.iter().enumerate().filter(|x| *x.1 == b'\n').map(|x| x.0 as u64 + 1).take(40).collect()
        } else {
            (0..r.range(0, 6)).map(|_| r.below(n + 1) as u64).collect()
        };
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let b = cx.reference(|| crate::refl::parse_lazy(&i.bytes));
        let cap = sut::cap_for(n);
        // In single bytes, and in pieces: then up to the end of the piece that holds what is needed.
        let mut cuts: Vec<u64> = i.aux.iter().map(|x| *x % (n as u64 + 1)).collect();
        cuts.sort();
        cuts.push(n as u64);
        let end_of = |x: u64| cuts.iter().copied().find(|c| *c >= x).unwrap_or(n as u64);
        let mut a = vec![];
        let mut worst = 0;
        for pass in 0..3 {
            let rd = ChunkReader::new(&i.bytes, if pass == 1 { sut::Plan::Cuts(cuts.iter().map(|x| *x as usize).collect()) } else { sut::Plan::Fixed(1) });
            let st = rd.stats.clone();
            let r = sut::guarded(|| {
                let mut p = ys::Parser::new();
                p.set_input(rd);
                let mut v = vec![];
                if pass == 2 {
                    while let Ok(mut d) = ys::Document::load(&mut p) {
                        if d.get_root_node().is_none() || v.len() > cap {
                            break;
                        }
                        v.push((st.exposed.get(), 0, true));
                    }
                    return v;
                }
                while let Some(Ok(e)) = p.next() {
                    let end = e.data == ys::EventData::StreamEnd;
                    v.push((st.exposed.get(), sut::mk(e.end_mark).i, matches!(e.data, ys::EventData::DocumentEnd { .. })));
                    if end || v.len() > cap {
                        break;
                    }
                }
                v
            });
            let t = tri!(r.map_err(|p| bad("panic", p)));
            // Within the first four bytes the two may differ: both look for a byte order mark.
            let need: Vec<u64> = if pass == 2 {
                // A document needs what the event of its end needs.
                a.iter().zip(&b).filter(|(x, _): &(&(u64, u64, bool), _)| x.2).map(|(_, y)| *y).collect()
            } else {
                b.clone()
            };
            for (k, (x, y)) in t.iter().zip(&need).enumerate() {
                let y = (*y).max(4);
                let most = if pass == 1 { end_of(y) } else { y };
                if x.0 > most {
                    let what = if pass == 2 { "a document" } else { "an event" };
                    return bad(format!("more input is demanded before {what} than libyaml needs"), format!("#{k}: {} bytes taken, libyaml {y}{}", x.0, if pass == 1 { format!(", pieces end at {cuts:?}") } else { String::new() }));
                }
                if pass == 0 {
                    worst = worst.max(x.0.saturating_sub(x.1));
                }
            }
            cx.count(["events timed, byte by byte", "events timed, in pieces", "documents timed"][pass], t.len() as u64);
            if pass == 0 {
                a = t;
            }
        }
        let b = cx.reference(|| crate::refl::scan_lazy(&i.bytes));
        for pass in 0..2 {
            let rd = ChunkReader::new(&i.bytes, if pass == 1 { sut::Plan::Cuts(cuts.iter().map(|x| *x as usize).collect()) } else { sut::Plan::Fixed(1) });
            let st = rd.stats.clone();
            let r = sut::guarded(|| {
                let mut p = ys::Scanner::new();
                p.set_input(rd);
                let mut v = vec![];
                while let Some(Ok(t)) = p.next() {
                    v.push(st.exposed.get());
                    if t.data == ys::TokenData::StreamEnd || v.len() > cap {
                        break;
                    }
                }
                v
            });
            let t = tri!(r.map_err(|p| bad("panic", p)));
            for (k, (x, y)) in t.iter().zip(&b).enumerate() {
                let y = (*y).max(4);
                if *x > if pass == 1 { end_of(y) } else { y } {
                    return bad("more input is demanded before a token than libyaml needs", format!("#{k}: {x} bytes taken, libyaml {y}{}", if pass == 1 { format!(", pieces end at {cuts:?}") } else { String::new() }));
                }
            }
            cx.count("tokens timed", t.len() as u64);
        }
        cx.count("bytes read ahead (sum over inputs of the maximum)", worst);
        cx.shape(fnv(format!("{a:?}").as_bytes()));
        V::Ok(a.len() >= 4)
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["the first four bytes may be read at once (encoding detection); after that no byte more than libyaml takes"]
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("events timed, byte by byte", 1000), ("events timed, in pieces", 1000), ("documents timed", 1000), ("tokens timed", 1000)]
    }
}
