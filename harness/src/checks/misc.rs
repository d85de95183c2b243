//! C11 reset, C23 error values, C24 document independence, C25 isolation of instances.
use super::parity_read::*;
use super::writing::*;
use crate::cmp::*;
use crate::gen_ev;
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sut::{self, ChunkReader};
use crate::tri;
use libyaml_safer as ys;
use std::io::{BufRead, Read, Write};

// ================================================================ C11 reset
pub struct Reset;

/// Use a parser for a while: `how` 0 parse, 1 load, 2 the iterator.
fn use_parser<R: BufRead>(p: &mut ys::Parser<R>, how: u64, calls: u64) -> u64 {
    let mut k = 0;
    while k < calls {
        k += 1;
        let end = match how % 3 {
            0 => match p.parse() {
                Ok(e) => e.data == ys::EventData::StreamEnd,
                Err(_) => true,
            },
            1 => match ys::Document::load(p) {
                Ok(d) => d.nodes.is_empty(),
                Err(_) => true,
            },
            _ => !matches!(p.next(), Some(Ok(_))),
        };
        if end {
            break;
        }
    }
    k
}

impl Check for Reset {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a parser, scanner or emitter is used on one to three inputs (accepted, rejected, malformed, other encodings, failing with I/O errors; stopped after a random number of calls or run past the end), reset after each, and then compared with a fresh one on a further input; non-trivial when something was produced before the reset and after it; distinct by inputs and program"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = crate::vast::texts();
        for (k, i) in v.iter_mut().enumerate() {
            i.aux = vec![k as u64 % 5, k as u64, 1, i.bytes.len() as u64];
            i.bytes.extend(b"a: [b, &c d]\n---\n- 'x'\n- *e");
            i.aux.push(i.bytes.len() as u64);
        }
        for (k, mut i) in crate::vast::streams().into_iter().enumerate() {
            i.aux = vec![5 + k as u64 % 3, k as u64, k as u64 % 3];
            v.push(i);
        }
        v
    }
    // bytes: the inputs, cut at the places in aux; aux: [what, seed, rounds, cut, cut, cut]
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let what = r.below(8) as u64;
        if what >= 5 {
            let mut i = Input::new("emitter");
            let (a, _) = gen_ev::any_stream(r);
            i.evs = a;
            if r.chance(1, 3) {
                gen_ev::perturb(r, &mut i.evs);
            }
            i.cfg = gen_ev::cfg(r);
            i.aux = vec![what, r.next() >> 40, r.below(3) as u64];
            return i;
        }
        let rounds = r.range(1, 3);
        let mut i = Input::new("reader");
        i.aux = vec![what, r.next() >> 40, rounds as u64];
        for _ in 0..=rounds {
            let mut x = gen_read(r, t);
            while x.bytes.len() > 3000 {
                x = gen_read(r, t);
            }
            if r.chance(1, 10) {
                gen_yaml::damage(r, &mut x.bytes);
            }
            i.bytes.extend(x.bytes);
            i.aux.push(i.bytes.len() as u64);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let mut r = Rng::new(i.a(1));
        let what = i.a(0) % 8;
        if what >= 5 {
            return self.emitter(i, cx, r);
        }
        let rounds = (i.a(2) as usize).min(3);
        let mut parts = vec![];
        let mut from = 0;
        for k in 0..=rounds {
            let to = if k == rounds { i.bytes.len() } else { (i.a(3 + k) as usize).clamp(from, i.bytes.len()) };
            parts.push(&i.bytes[from..to]);
            from = to;
        }
        let last = parts.pop().unwrap();
        let mut used = 0;
        let n = last.len();
        let cap = sut::cap_for(n);
        let enc = if r.chance(1, 6) { r.below(4) as u8 } else { 0 };
        let reader = |r: &mut Rng, d: &'_ [u8]| {
            let (m, p, s) = (r.below(5) as u64, r.below(10000) as u64, r.next() >> 40);
            let c = chunked(unsafe_longer(d), m, p, s);
            if r.chance(1, 8) {
                let at = r.below(d.len() + 1);
                c.fail_at(at, std::io::ErrorKind::TimedOut)
            } else {
                c
            }
        };
        let calls = |r: &mut Rng| if r.bool() { r.below(12) as u64 } else { 100_000 };
        if what == 0 || what == 1 {
            let mut s = ys::Scanner::new();
            let got = sut::guarded(|| {
                for d in &parts {
                    s.set_input(reader(&mut r, d));
                    if r.chance(1, 6) {
                        s.set_encoding(sut::enc_to(r.below(4) as u8));
                    }
                    for _ in 0..calls(&mut r) {
                        used += 1;
                        match ys::Scanner::scan(&mut s) {
                            Ok(t) if t.data != ys::TokenData::StreamEnd => {}
                            _ => break,
                        }
                    }
                    s.reset();
                }
                s.set_input(ChunkReader::whole(last));
                if enc != 0 {
                    s.set_encoding(sut::enc_to(enc));
                }
                sut::tokens_from(&mut s, cap)
            });
            let got = tri!(got.map_err(|p| bad("panic", p)));
            let want = tri!(sut::scan_with(ChunkReader::whole(last), enc, n).map_err(|p| bad("panic", p)));
            tri!(trace_eq("a scanner that was reset differs from a fresh one", &want, &got));
            cx.count("scanners compared", 1);
            cx.count("calls before a reset", used);
            cx.shape(tok_shape(&got));
            return V::Ok(used > 1 && got.items.len() > 2);
        }
        let mut p = ys::Parser::new();
        let got = sut::guarded(|| {
            for d in &parts {
                p.set_input(reader(&mut r, d));
                if r.chance(1, 6) {
                    p.set_encoding(sut::enc_to(r.below(4) as u8));
                }
                let how = r.below(3) as u64;
                let k = calls(&mut r);
                used += use_parser(&mut p, how, k);
                p.reset();
            }
            p.set_input(ChunkReader::whole(last));
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            if what == 2 {
                (None, Some(sut::load_from(&mut p, cap)))
            } else {
                (Some(sut::events_from(&mut p, cap)), None)
            }
        });
        cx.count("calls before a reset", used);
        match tri!(got.map_err(|p| bad("panic", p))) {
            (Some(got), _) => {
                let want = tri!(sut::parse_with(ChunkReader::whole(last), enc, n).map_err(|p| bad("panic", p)));
                tri!(trace_eq("a parser that was reset differs from a fresh one", &want, &got));
                cx.count("parsers compared", 1);
                cx.shape(kinds_shape(&got.items));
                V::Ok(used > 1 && got.items.len() > 2)
            }
            (_, Some(got)) => {
                let want = tri!(sut::load_with(ChunkReader::whole(last), enc, n).map_err(|p| bad("panic", p)));
                tri!(load_eq("documents from a parser that was reset differ from a fresh one's", &want, &got));
                cx.count("loaders compared", 1);
                V::Ok(used > 1 && !got.docs.is_empty())
            }
            _ => V::Skip("nothing"),
        }
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("scanners compared", 100), ("parsers compared", 100), ("loaders compared", 100), ("emitters compared", 100)]
    }
}
/// Readers of several inputs share one parser type; all borrow from the case.
fn unsafe_longer(d: &[u8]) -> &'static [u8] {
    unsafe { std::mem::transmute(d) }
}
impl Reset {
    fn emitter(&self, i: &Input, cx: &mut Ctx, mut r: Rng) -> V {
        // Output buffers outlive the emitter.
        let mut bufs: Vec<Vec<u8>> = vec![vec![]; 4];
        let rounds = 1 + (i.a(2) % 3) as usize;
        let second_cfg = if r.bool() { Cfg::default() } else { gen_ev::cfg(&mut r) };
        let configure = r.bool();
        let (evs, _) = gen_ev::any_stream(&mut r);
        // One of them ends in a value that needs "..." after it.
        let open = [Ev::Scalar { anchor: None, tag: None, value: "x\n\n".into(), plain: true, quoted: true, style: 4 }];
        let docs = if r.bool() {
            super::document::build_model(&[13, 24, 15, 16, 5 + 40970, 17, 18, 3, 5, 16], &[])
        } else {
            super::document::build_model(&[10], &open)
        };
        let dump = r.chance(1, 4);
        let mut used = 0;
        let mut res: Vec<Result<(), String>> = vec![];
        let (front, back) = bufs.split_at_mut(3);
        // Sinks that fail at some point.
        let mut fulls: Vec<Full> = (0..3).map(|k| Full(r.below(120), std::io::ErrorKind::StorageFull, k)).collect();
        let run = |em: &mut ys::Emitter, res: &mut Vec<Result<(), String>>| {
            if dump {
                for d in &docs {
                    res.push(super::document::build(d).dump(em).map_err(|e| e.to_string()));
                }
                for _ in 0..2 {
                    res.push(em.close().map_err(|e| e.to_string()));
                }
                res.push(em.emit(ys::Event::document_start(None, &[], true)).map_err(|e| e.to_string()));
            } else {
                for e in &evs {
                    res.push(em.emit(sut::ev_to(e)).map_err(|e| e.to_string()));
                }
            }
        };
        let g = sut::guarded(|| {
            let mut em = ys::Emitter::new();
            for (k, (b, full)) in front.iter_mut().zip(&mut fulls).enumerate().take(rounds) {
                if r.chance(1, 4) {
                    em.set_output(full);
                } else {
                    em.set_output(b);
                }
                if k > 0 || r.chance(3, 4) {
                    sut::configure(&mut em, &i.cfg);
                }
                let n = if r.bool() { r.below(i.evs.len() + 1) } else { i.evs.len() };
                let mut begun = false;
                if r.chance(1, 4) {
                    let d = super::document::build_model(&[13, 24, 15, 16, 17, 18], &[]);
                    let mut fine = true;
                    for d in &d {
                        fine &= super::document::build(d).dump(&mut em).is_ok();
                    }
                    if fine && r.bool() {
                        let _ = em.close();
                    }
                    used += 1;
                } else {
                    for (q, e) in i.evs[..n].iter().enumerate() {
                        used += 1;
                        let ok = em.emit(sut::ev_to(e)).is_ok();
                        begun |= q == 0 && ok && matches!(e, Ev::StreamStart(_));
                    }
                }
                if begun && r.chance(1, 4) {
                    let _ = em.flush();
                }
                em.reset();
            }
            em.set_output(&mut back[0]);
            if configure {
                sut::configure(&mut em, &second_cfg);
            }
            run(&mut em, &mut res);
        });
        tri!(g.map_err(|p| bad("panic", p)));
        let mut want = vec![];
        let mut wres = vec![];
        let g = sut::guarded(|| {
            let mut em = if r.bool() { ys::Emitter::default() } else { ys::Emitter::new() };
            em.set_output(&mut want);
            if configure {
                sut::configure(&mut em, &second_cfg);
            }
            run(&mut em, &mut wres);
        });
        tri!(g.map_err(|p| bad("panic", p)));
        if res != wres || bufs[3] != want {
            return bad("an emitter that was reset differs from a fresh one", format!("{}\n{} vs {}", diff_bytes(&bufs[3], &want), short(&res), short(&wres)));
        }
        cx.count("emitters compared", 1);
        cx.count("calls before a reset", used);
        V::Ok(used > 1 && evs.len() > 3)
    }
}

// ================================================================ C23 error values
pub struct Errors;

fn check_error(e: ys::Error, injected: (std::io::ErrorKind, usize)) -> Result<K, String> {
    use std::error::Error as _;
    let kind = sut::kind(e.kind());
    let text = e.to_string();
    let place = |m: ys::Mark| format!("line {} column {}", m.line + 1, m.column + 1);
    if e.problem().is_empty() {
        return Err(format!("no problem: {text}"));
    }
    if e.context().is_some() != e.context_mark().is_some() {
        return Err(format!("context without its mark or the reverse: {text}"));
    }
    if e.context() == Some("") {
        return Err(format!("empty context: {text}"));
    }
    let name = match kind {
        K::Reader => "Reader",
        K::Scanner => "Scanner",
        K::Parser => "Parser",
        K::Composer => "Composer",
        K::Emitter => "Emitter",
        K::Io => "I/O",
        K::Memory => "?",
    };
    if e.kind().to_string() != name {
        return Err(format!("kind displayed as {}", e.kind()));
    }
    let source = e.source().map(|s| s.to_string());
    match kind {
        K::Scanner | K::Parser | K::Composer => {
            let Some(pm) = e.problem_mark() else { return Err(format!("no mark: {text}")) };
            if pm.to_string() != place(pm) {
                return Err(format!("mark displayed as {pm}"));
            }
            let mut want = format!("{name} error: {}: {}", place(pm), e.problem());
            if let (Some(c), Some(m)) = (e.context(), e.context_mark()) {
                want.push_str(&format!(" {c} ({})", place(m)));
                if m.index > pm.index {
                    return Err(format!("the context is after the problem: {text}"));
                }
            }
            if text != want {
                return Err(format!("displayed as {text:?}, expected {want:?}"));
            }
        }
        K::Reader => {
            let ok = text
                .strip_prefix(&format!("Reader error: {} (offset ", e.problem()))
                .and_then(|t| t.strip_suffix(')'))
                .and_then(|t| t.split_once(", value "))
                .is_some_and(|(a, b)| a.parse::<u64>().is_ok() && b.parse::<i64>().is_ok());
            if !ok {
                return Err(format!("displayed as {text:?}"));
            }
        }
        K::Emitter => {
            if text != format!("Emitter error: {}", e.problem()) {
                return Err(format!("displayed as {text:?}"));
            }
        }
        K::Io => {
            if e.problem() != "I/O error" || source.as_deref().map(|s| format!("I/O error: {s}")) != Some(text.clone()) {
                return Err(format!("displayed as {text:?}, source {source:?}"));
            }
        }
        K::Memory => {}
    }
    if !matches!(kind, K::Scanner | K::Parser | K::Composer) && (e.problem_mark().is_some() || e.context().is_some()) {
        return Err(format!("a place in an error that has none: {text}"));
    }
    if (kind == K::Io) != source.is_some() {
        return Err(format!("source {source:?} of {text}"));
    }
    if format!("{e:?}").is_empty() {
        return Err("empty debug text".into());
    }
    let is = |s: &std::io::Error| sut::is_injected(s, injected.0, injected.1);
    if kind == K::Io && !e.source().and_then(|s| s.downcast_ref::<std::io::Error>()).is_some_and(is) {
        return Err(format!("the source is not the error that occurred: {:?}", e.source()));
    }
    match std::io::Error::try_from(e) {
        Ok(io) => {
            if kind != K::Io || Some(io.to_string()) != source || !is(&io) {
                return Err(format!("{text} converted to {io:?}"));
            }
        }
        Err(e) => {
            if kind == K::Io || e.to_string() != text || sut::kind(e.kind()) != kind {
                return Err(format!("{text} not converted, or changed to {e}"));
            }
        }
    }
    Ok(kind)
}

struct Full(usize, std::io::ErrorKind, usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 {
            return Err(sut::injected(self.1, self.2));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Check for Errors {
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "every error produced by parsing, scanning and loading generated and damaged inputs, by injected input and output failures, and by emitting damaged event sequences; its accessors, displayed text, source and conversion are compared with each other; non-trivial when at least one error was examined; distinct by case"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i = gen_read(r, t);
        if r.bool() {
            if let Ok(s) = String::from_utf8(i.bytes.clone()) {
                i.bytes = gen_yaml::mutate(r, &s).into_bytes();
            }
        }
        if r.chance(1, 4) {
            gen_yaml::damage(r, &mut i.bytes);
        }
        let enc = i.a(0);
        let fault = if r.chance(1, 4) { r.below(i.bytes.len() + 1) as u64 + 1 } else { 0 };
        i.aux = vec![enc, fault, r.below(8) as u64, r.next() >> 40];
        if r.chance(1, 2500) {
            // Lines and columns with many digits.
            let n = *r.pick(&[254, 255, 256, 999, 1000, 9999, 32767, 65534, 65535, 65536, 70000, 99999, 131072]);
            let (a, c) = *r.pick(&[("\n", ""), ("#\n", ""), ("x\n", ""), ("", " "), ("a: b\n", ""), ("'", "a"), ("[\n", ", a\n")]);
            let mut s = a.repeat(if c.is_empty() { n } else { 1 });
            s.push_str(&c.repeat(n));
            let tail = *r.pick(&["@", "]", "'a' b", "\t- a: b: c", "*q", "!q!x", "\"\\q\"", "- a\nb", "{", "&a x: &a y", "%"]);
            s.push_str(tail);
            i.bytes = s.into_bytes();
        }
        if r.chance(1, 3) {
            i.evs = gen_ev::any_stream(r).0;
            gen_ev::perturb(r, &mut i.evs);
            i.cfg = gen_ev::cfg(r);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        const KINDS: &[std::io::ErrorKind] = &[
            std::io::ErrorKind::Other,
            std::io::ErrorKind::UnexpectedEof,
            std::io::ErrorKind::BrokenPipe,
            std::io::ErrorKind::InvalidData,
            std::io::ErrorKind::TimedOut,
            std::io::ErrorKind::WouldBlock,
            std::io::ErrorKind::NotFound,
            std::io::ErrorKind::PermissionDenied,
        ];
        let kind = KINDS[(i.a(2) % 8) as usize];
        let enc = (i.a(0) % 4) as u8;
        let n = i.bytes.len();
        let rd = || {
            let c = ChunkReader::whole(&i.bytes);
            if i.a(1) > 0 {
                c.fail_at(i.a(1) as usize - 1, kind)
            } else {
                c
            }
        };
        let mut errs: Vec<(ys::Error, K)> = vec![];
        let g = sut::guarded(|| {
            let mut p = ys::Parser::new();
            p.set_input(rd());
            p.set_encoding(sut::enc_to(enc));
            let mut s = ys::Scanner::new();
            s.set_input(rd());
            s.set_encoding(sut::enc_to(enc));
            let mut l = ys::Parser::new();
            l.set_input(rd());
            l.set_encoding(sut::enc_to(enc));
            if let Some(Err(e)) = (&mut p).take(sut::cap_for(n)).last() {
                errs.push((e, K::Parser));
            }
            if let Some(Err(e)) = (&mut s).take(sut::cap_for(n)).last() {
                errs.push((e, K::Scanner));
            }
            for _ in 0..sut::cap_for(n) {
                match ys::Document::load(&mut l) {
                    Ok(d) if d.nodes.is_empty() => break,
                    Ok(_) => {}
                    Err(e) => {
                        errs.push((e, K::Composer));
                        break;
                    }
                }
            }
            if !i.evs.is_empty() {
                let mut out = vec![];
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &i.cfg);
                for e in &i.evs {
                    if let Err(x) = em.emit(sut::ev_to(e)) {
                        errs.push((x, K::Emitter));
                        break;
                    }
                }
                let mut out = Full((i.a(3) % 200) as usize, kind, (i.a(3) % 200) as usize);
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &i.cfg);
                for e in &i.evs {
                    if let Err(x) = em.emit(sut::ev_to(e)) {
                        errs.push((x, K::Io));
                        break;
                    }
                }
            }
        });
        tri!(g.map_err(|p| bad("panic", p)));
        let some = !errs.is_empty();
        for (e, from) in errs {
            let t = e.to_string();
            let at = if from == K::Io { (i.a(3) % 200) as usize } else { (i.a(1) as usize).saturating_sub(1) };
            match check_error(e, (kind, at)) {
                Ok(k) => {
                    // What each interface may report.
                    let ok = match from {
                        K::Scanner => matches!(k, K::Reader | K::Scanner | K::Io),
                        K::Parser => matches!(k, K::Reader | K::Scanner | K::Parser | K::Io),
                        K::Composer => k != K::Emitter,
                        K::Emitter => k == K::Emitter,
                        _ => matches!(k, K::Emitter | K::Io),
                    };
                    if !ok || (k == K::Io && from != K::Io && i.a(1) == 0) {
                        return bad("an interface reports an error of a foreign kind", format!("{from:?}: {t}"));
                    }
                    cx.count(&format!("{k:?} errors"), 1);
                    cx.shape(fnv(t.as_bytes()));
                }
                Err(m) => return bad("an error value contradicts itself", m),
            }
        }
        V::Ok(some)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("Reader errors", 50), ("Scanner errors", 50), ("Parser errors", 50), ("Composer errors", 50), ("Emitter errors", 50), ("Io errors", 50)]
    }
}

// ================================================================ C24 documents are independent
pub struct Concat;
impl Check for Concat {
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "an accepted text A, ended by a line with '...', is followed by a text B that starts with directives or '---'; tokens, events and documents of the whole are compared with those of A and of B, moved by the length of A; B may be rejected; non-trivial when both have a document; distinct by text"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_000_000, thorough: 13_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = crate::vast::texts();
        for (k, i) in v.iter_mut().enumerate() {
            i.aux = vec![k as u64];
        }
        v
    }
    fn settle(&self, i: &mut Input) {
        crate::vast::accept(i);
        if i.label.starts_with("vast") && i.aux.len() == 1 {
            let k = i.aux[0] as usize;
            i.aux = vec![i.bytes.len() as u64, k as u64 % 2];
            i.bytes.extend(["%TAG !e! tag:e:\n--- !e!x [a, &b c]\n", "---\na: |\n  b\n# c\n- d", "--- \"x\n y\"\n...\n[*a]"][k % 3].bytes());
        }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut text = |r: &mut Rng| loop {
            let s = match r.below(5) {
                0 => super::content::tagged(r),
                1 => String::from_utf8(super::reading::gen_docs(r, Tier::Quick).bytes).unwrap_or_default(),
                _ => gen_yaml::any_text(r, false).0,
            };
            if s.len() < 5000 {
                return s;
            }
        };
        let mut a = text(r);
        for _ in 0..4 {
            // Mostly accepted ones.
            if sut::parse(a.as_bytes()).is_ok_and(|t| t.err.is_none()) {
                break;
            }
            a = text(r);
        }
        let mut b = text(r);
        if r.chance(1, 4) {
            // The tags and anchors of A, without the directives that go with them.
            let body: Vec<&str> = a.lines().filter(|l| !l.starts_with('%') && !l.starts_with("...")).collect();
            b = body.join("\n");
            b.push('\n');
        }
        let mut i = Input::new("pair");
        i.bytes = a.into_bytes();
        i.aux = vec![i.bytes.len() as u64, r.below(2) as u64];
        i.bytes.extend(b.bytes());
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let cut = (i.a(0) as usize).min(i.bytes.len());
        let (Ok(a), Ok(b)) = (std::str::from_utf8(&i.bytes[..cut]), std::str::from_utf8(&i.bytes[cut..])) else {
            return V::Skip("cut within a character");
        };
        let b = b.trim_start_matches('\u{feff}');
        if malformed(a.as_bytes(), 1).is_some() || malformed(b.as_bytes(), 1).is_some() || b.contains('\u{feff}') {
            return V::Skip("characters that no stream may contain");
        }
        let marked = b.strip_prefix("---").is_some_and(|b| !b.starts_with(|c: char| !matches!(c, ' ' | '\t' | '\r' | '\n' | '\u{85}' | '\u{2028}' | '\u{2029}')));
        let b = if b.starts_with('%') || marked { b.to_string() } else { format!("---\n{b}") };
        // Without directives, '---' is enough to end the document before.
        let bare = i.a(1) == 1 && b.starts_with("---");
        let a = if bare { format!("{a}\n") } else { format!("{a}\n...\n") };
        cx.count(if bare { "joined by '---' alone" } else { "joined by '...'" }, 1);
        let ab = format!("{a}{b}");
        let ta = tri!(sut::parse(a.as_bytes()).map_err(|p| bad("panic", p)));
        if ta.err.is_some() {
            return V::Skip("the first text is rejected");
        }
        let tb = tri!(sut::parse(b.as_bytes()).map_err(|p| bad("panic", p)));
        let tab = tri!(sut::parse(ab.as_bytes()).map_err(|p| bad("panic", p)));
        let bom = a.starts_with('\u{feff}');
        let di = a.trim_start_matches('\u{feff}').len() as u64;
        let dl = places(a.trim_start_matches('\u{feff}')).at.get(&di).map_or(0, |x| x.0);
        if bom && a[3..].starts_with('\u{feff}') {
            return V::Skip("two byte order marks");
        }
        let mv = |m: Mk| Mk { i: m.i + di, l: m.l + dl, c: m.c };
        let mut want = ta.clone();
        want.items.pop();
        // (The comparison of the end of B's stream depends on B alone.)
        for x in &tb.items[tb.items.len().min(1)..] {
            want.items.push(At { v: x.v.clone(), s: mv(x.s), e: mv(x.e) });
        }
        let moved = |e: &Option<ErrM>| {
            e.as_ref().map(|e| ErrM { pm: e.pm.map(mv), cm: e.cm.map(mv), text: String::new(), ..e.clone() })
        };
        let plain = |e: &Option<ErrM>| e.as_ref().map(|e| ErrM { text: String::new(), ..e.clone() });
        want.err = moved(&tb.err);
        let mut got = tab.clone();
        got.err = plain(&tab.err);
        tri!(trace_eq("events of a document depend on what precedes it", &want, &got));
        // Tokens.
        let (ka, kb, kab) = match (sut::scan(a.as_bytes()), sut::scan(b.as_bytes()), sut::scan(ab.as_bytes())) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (Err(p), _, _) | (_, Err(p), _) | (_, _, Err(p)) => return bad("panic", p),
        };
        if ka.err.is_none() {
            let mut want = ka.clone();
            want.items.pop();
            for x in &kb.items[kb.items.len().min(1)..] {
                want.items.push(At { v: x.v.clone(), s: mv(x.s), e: mv(x.e) });
            }
            want.err = moved(&kb.err);
            let mut got = kab;
            got.err = plain(&got.err);
            tri!(trace_eq("tokens of a document depend on what precedes it", &want, &got));
        }
        // Documents.
        let (la, lb, lab) = match (sut::load(a.as_bytes()), sut::load(b.as_bytes()), sut::load(ab.as_bytes())) {
            (Ok(a), Ok(b), Ok(c)) => (a, b, c),
            (Err(p), _, _) | (_, Err(p), _) | (_, _, Err(p)) => return bad("panic", p),
        };
        if la.err.is_none() {
            let mut want = la.clone();
            for d in &lb.docs {
                let mut d = d.clone();
                d.s = mv(d.s);
                d.e = mv(d.e);
                for n in &mut d.nodes {
                    n.s = mv(n.s);
                    n.e = mv(n.e);
                }
                want.docs.push(d);
            }
            want.err = moved(&lb.err);
            let mut got = lab;
            got.err = plain(&got.err);
            tri!(load_eq("a loaded document depends on what precedes it", &want, &got));
            cx.count("documents compared", got.docs.len() as u64);
        }
        cx.count("events compared", got.items.len() as u64);
        cx.count("second texts rejected", tb.err.is_some() as u64);
        cx.shape(kinds_shape(&tab.items));
        let docs = |t: &EvTrace| t.items.iter().any(|x| matches!(x.v, Ev::DocStart { .. }));
        V::Ok(docs(&ta) && docs(&tb))
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("events compared", 1000), ("documents compared", 500), ("second texts rejected", 100)]
    }
}

// ================================================================ C25 instances are isolated
/// What is lent to another thread while this one waits.
struct Lent<T>(T);
unsafe impl<T> Send for Lent<T> {}

/// Whether a type may be moved to, or shared with, another thread; asked in a way that compiles either way.
struct Probe<T>(std::marker::PhantomData<T>);
trait IsSend {
    fn send(&self) -> bool {
        true
    }
}
trait NotSend {
    fn send(&self) -> bool {
        false
    }
}
trait IsSync {
    fn sync(&self) -> bool {
        true
    }
}
trait NotSync {
    fn sync(&self) -> bool {
        false
    }
}
impl<T: Send> IsSend for Probe<T> {}
impl<T> NotSend for &Probe<T> {}
impl<T: Sync> IsSync for Probe<T> {}
impl<T> NotSync for &Probe<T> {}
macro_rules! threads {
    ($($t:ty),* $(,)?) => {
        vec![$((stringify!($t), (&Probe::<$t>(std::marker::PhantomData)).send(), (&Probe::<$t>(std::marker::PhantomData)).sync())),*]
    };
}
type Input0 = &'static [u8];

pub struct Isolation;

#[derive(Clone, PartialEq, Debug)]
struct Work {
    bytes: Vec<u8>,
    evs: Vec<Ev>,
    docs: Vec<DocM>,
    cfg: Cfg,
}
#[derive(Clone, PartialEq, Debug)]
struct Result1 {
    events: Vec<Result<(Ev, Mk, Mk), String>>,
    tokens: Vec<Result<(Tok, Mk, Mk), String>>,
    docs: Vec<Result<DocM, String>>,
    emits: Vec<Result<(), String>>,
    dumps: Vec<Result<(), String>>,
    out: Vec<u8>,
    dumped: Vec<u8>,
}
/// How many kinds of instance a machine has.
const KINDS: usize = 5;
/// One instance of everything, advanced one call at a time.
struct Machine<'a, R: BufRead> {
    w: &'a Work,
    p: ys::Parser<R>,
    s: ys::Scanner<R>,
    l: ys::Parser<R>,
    e: ys::Emitter<'a>,
    d: ys::Emitter<'a>,
    r: Result1,
    done: [bool; KINDS],
    at: usize,
    dat: usize,
}
type Outs = (Vec<u8>, Vec<u8>);
impl<'a> Machine<'a, ChunkReader<'a>> {
    fn new(w: &'a Work, out: &'a mut Outs, chunk: usize) -> Self {
        Machine::with(w, &mut out.0, &mut out.1, || if chunk == 0 { ChunkReader::whole(&w.bytes) } else { ChunkReader::new(&w.bytes, sut::Plan::Fixed(chunk)) })
    }
}
impl<'a, R: BufRead> Machine<'a, R> {
    fn with(w: &'a Work, out: &'a mut dyn Write, dumped: &'a mut dyn Write, rd: impl Fn() -> R) -> Self {
        let mut p = ys::Parser::new();
        p.set_input(rd());
        let mut s = ys::Scanner::new();
        s.set_input(rd());
        let mut l = ys::Parser::new();
        l.set_input(rd());
        let mut e = ys::Emitter::new();
        e.set_output(out);
        sut::configure(&mut e, &w.cfg);
        let mut d = ys::Emitter::new();
        d.set_output(dumped);
        sut::configure(&mut d, &w.cfg);
        let r = Result1 { events: vec![], tokens: vec![], docs: vec![], emits: vec![], dumps: vec![], out: vec![], dumped: vec![] };
        Machine { w, p, s, l, e, d, r, done: [false; KINDS], at: 0, dat: 0 }
    }
    /// Advance component `k`; false when it is finished.
    fn step(&mut self, k: usize) -> bool {
        if self.done[k] {
            return false;
        }
        self.done[k] = match k {
            0 => match self.p.next() {
                None => true,
                Some(Ok(e)) => {
                    let (s, x) = (sut::mk(e.start_mark), sut::mk(e.end_mark));
                    self.r.events.push(Ok((sut::ev_from(e.data), s, x)));
                    false
                }
                Some(Err(e)) => {
                    self.r.events.push(Err(e.to_string()));
                    true
                }
            },
            1 => match self.s.next() {
                None => true,
                Some(Ok(e)) => {
                    let (s, x) = (sut::mk(e.start_mark), sut::mk(e.end_mark));
                    self.r.tokens.push(Ok((sut::tok_from(e.data), s, x)));
                    false
                }
                Some(Err(e)) => {
                    self.r.tokens.push(Err(e.to_string()));
                    true
                }
            },
            2 => match ys::Document::load(&mut self.l) {
                Ok(d) if d.nodes.is_empty() => true,
                Ok(d) => {
                    self.r.docs.push(Ok(sut::doc_model(&d)));
                    false
                }
                Err(e) => {
                    self.r.docs.push(Err(e.to_string()));
                    true
                }
            },
            3 => match self.w.docs.get(self.dat) {
                None => true,
                Some(d) => {
                    self.dat += 1;
                    let d = super::document::build(d);
                    self.r.dumps.push(d.dump(&mut self.d).map_err(|e| e.to_string()));
                    false
                }
            },
            _ => match self.w.evs.get(self.at) {
                None => true,
                Some(e) => {
                    self.at += 1;
                    self.r.emits.push(self.e.emit(sut::ev_to(e)).map_err(|e| e.to_string()));
                    false
                }
            },
        };
        true
    }
    fn run(mut self) -> Result1 {
        for k in 0..KINDS {
            while self.step(k) {}
        }
        self.r
    }
}
fn alone(w: &Work, chunk: usize) -> Result<Result1, String> {
    sut::guarded(|| {
        let mut out = Outs::default();
        let mut r = Machine::new(w, &mut out, chunk).run();
        (r.out, r.dumped) = out;
        r
    })
}

/// A source and a sink that use other instances whenever they are asked.
struct Busy<'h, T> {
    inner: T,
    hook: &'h dyn Fn(),
}
impl<T: Read> Read for Busy<'_, T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        (self.hook)();
        self.inner.read(b)
    }
}
impl<T: BufRead> BufRead for Busy<'_, T> {
    fn fill_buf(&mut self) -> std::io::Result<&[u8]> {
        (self.hook)();
        self.inner.fill_buf()
    }
    fn consume(&mut self, n: usize) {
        self.inner.consume(n)
    }
}
impl<T: Write> Write for Busy<'_, T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        (self.hook)();
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

/// Documents in which most nodes are used more than once.
fn shared_docs(r: &mut Rng) -> Vec<DocM> {
    (0..r.range(1, 3))
        .map(|_| {
            let node = |k| NodeM { k, tag: Some("!t".into()), s: Mk::default(), e: Mk::default() };
            let n = r.range(2, 60) as i32;
            let mut nodes = vec![node(NodeK::Seq((0..2 * n).map(|k| 2 + k % n).collect(), 0))];
            nodes.extend((0..n).map(|k| match k % 3 {
                0 => node(NodeK::Map(vec![(2 + (k + 1) % n, 2)], 0)),
                _ => node(NodeK::Scalar(format!("v{k}"), 0)),
            }));
            DocM { nodes, ver: None, tags: vec![], si: r.bool(), ei: r.bool(), s: Mk::default(), e: Mk::default() }
        })
        .collect()
}
fn some_docs(r: &mut Rng, evs: &[Ev]) -> Vec<DocM> {
    if r.chance(1, 3) {
        return shared_docs(r);
    }
    let ops: Vec<u64> = (0..r.range(3, 40)).map(|_| r.next() >> 40).collect();
    let mut docs = super::document::build_model(&ops, evs);
    docs.truncate(4);
    docs
}

/// Threads that do nothing but use instances of their own, all at once, for a while.
fn stress(cx: &mut Ctx, seconds: u64) -> Vec<(String, String)> {
    let mut r = Rng::new(seed() ^ 0x25_0000);
    let mut works: Vec<(Work, usize, Result1)> = vec![];
    for _ in 0..48 {
        let mut bytes = gen_read(&mut r, Tier::Quick).bytes;
        bytes.truncate(1500);
        let evs = gen_ev::stream(&mut r, 12, false);
        let docs = if r.bool() { shared_docs(&mut r) } else { some_docs(&mut r, &evs) };
        let w = Work { bytes, evs, docs, cfg: gen_ev::cfg(&mut r) };
        let chunk = r.below(20);
        match alone(&w, chunk) {
            Ok(b) => works.push((w, chunk, b)),
            Err(p) => return vec![("panic".into(), p)],
        }
    }
    let works = &works;
    let gate = &std::sync::Barrier::new(8);
    let until = seconds;
    let res: Vec<(u64, Option<String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..8u64)
            .map(|t| {
                s.spawn(move || {
                    let mut r = Rng::new(t);
                    gate.wait();
                    let start = std::time::Instant::now();
                    let mut rounds = 0;
                    // At least some rounds, however busy the machine.
                    while rounds < 200 || start.elapsed().as_secs() < until {
                        let k = r.below(works.len());
                        let (w, chunk, base) = &works[k];
                        match alone(w, *chunk) {
                            Ok(g) if g == *base => {}
                            Ok(_) => return (rounds, Some(format!("thread {t}, set #{k}, round {rounds}"))),
                            Err(p) => return (rounds, Some(format!("thread {t}, set #{k}, round {rounds}: {p}"))),
                        }
                        rounds += 1;
                    }
                    (rounds, None)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or((0, Some("thread died".into())))).collect()
    });
    cx.count("rounds in threads at once", res.iter().map(|x| x.0).sum());
    res.into_iter().filter_map(|x| x.1).take(1).map(|d| ("instances used in threads at once influence each other".to_string(), d)).collect()
}

impl Check for Isolation {
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "two to six sets of a parser, a scanner, a loader and an emitter, each with its own input; run one after another, again, advanced alternately in a random order within one thread, used by the source or sink of another while it is being called, concurrently in as many threads, and moved from thread to thread; all results are compared; non-trivial when at least two sets produced events; distinct by inputs and order"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 60_000, thorough: 2_000_000 }
    }
    fn once(&self, cx: &mut Ctx, t: Tier) -> Vec<(String, String)> {
        // What is owned can go to another thread, and what is only looked at can be shared.
        let all = threads![
            ys::Parser<Input0>, ys::Scanner<Input0>, ys::Document, ys::Node, ys::NodeData, ys::NodePair, ys::Event, ys::EventData, ys::Token, ys::TokenData,
            ys::Error, ys::Mark, ys::VersionDirective, ys::TagDirective, ys::Encoding,
        ];
        let mut v = vec![];
        // The question itself is answered rightly.
        let sane = threads![std::rc::Rc<u8>, std::cell::Cell<u8>, u8];
        assert_eq!(sane.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>(), [(false, false), (true, false), (true, true)]);
        v.extend(stress(cx, if t == Tier::Quick { 4 } else { 60 }));
        for (name, send, sync) in all {
            cx.count("types asked", 1);
            if !send || !sync {
                v.push((format!("{name} cannot be {} threads", if send { "shared between" } else { "moved between" }), String::new()));
            }
        }
        v
    }
    // The first set works on the case's own input; aux: [seed, sets]
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i = gen_read(r, t);
        i.evs = gen_ev::any_stream(r).0;
        i.cfg = gen_ev::cfg(r);
        i.aux = vec![r.next() >> 40, r.range(2, 6) as u64];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let mut r = Rng::new(i.a(0));
        let n = i.a(1).clamp(2, 6) as usize;
        let mut ws = vec![Work { bytes: i.bytes.clone(), docs: some_docs(&mut r, &i.evs), evs: i.evs.clone(), cfg: i.cfg }];
        while ws.len() < n {
            let mut b = gen_read(&mut r, Tier::Quick).bytes;
            b.truncate(2000);
            let evs = gen_ev::stream(&mut r, 12, false);
            ws.push(Work { bytes: b, docs: some_docs(&mut r, &evs), evs, cfg: gen_ev::cfg(&mut r) });
        }
        let chunks: Vec<usize> = ws.iter().map(|_| if r.bool() { 0 } else { 1 + r.below(40) }).collect();
        let mut base = vec![];
        for (w, c) in ws.iter().zip(&chunks) {
            base.push(tri!(alone(w, *c).map_err(|p| bad("panic", p))));
        }
        // Again, in another order.
        for k in (0..n).rev() {
            if tri!(alone(&ws[k], chunks[k]).map_err(|p| bad("panic", p))) != base[k] {
                return bad("the same calls give another result the second time", describe_diff(k));
            }
        }
        // Alternately.
        let mut outs: Vec<Outs> = vec![Outs::default(); n];
        let mut switches = 0u64;
        let got = sut::guarded(|| {
            let mut ms: Vec<Machine<_>> = ws.iter().zip(&mut outs).zip(&chunks).map(|((w, o), c)| Machine::new(w, o, *c)).collect();
            let mut live: Vec<(usize, usize)> = (0..n).flat_map(|a| (0..KINDS).map(move |b| (a, b))).collect();
            while !live.is_empty() {
                let k = r.below(live.len());
                let (a, b) = live[k];
                switches += 1;
                for _ in 0..1 + r.below(3) {
                    if !ms[a].step(b) {
                        live.swap_remove(k);
                        break;
                    }
                }
            }
            ms.into_iter().map(|m| m.r).collect::<Vec<_>>()
        });
        let mut got = tri!(got.map_err(|p| bad("panic when instances alternate", p)));
        for (g, o) in got.iter_mut().zip(outs) {
            (g.out, g.dumped) = o;
        }
        for k in 0..n {
            if got[k] != base[k] {
                return bad("instances that alternate influence each other", describe_diff(k));
            }
        }
        cx.count("switches between instances", switches);
        // One within another: the first set's sources and sinks advance the second whenever they are asked.
        let calls = std::cell::Cell::new(0u64);
        let got = sut::guarded(|| {
            let mut outs = (Outs::default(), Outs::default());
            let other = std::cell::RefCell::new(Machine::new(&ws[1], &mut outs.1, chunks[1]));
            let turn = std::cell::RefCell::new(Rng::new(i.a(0)));
            let hook = || {
                if let Ok(mut m) = other.try_borrow_mut() {
                    let mut t = turn.borrow_mut();
                    for _ in 0..t.below(4) {
                        calls.set(calls.get() + m.step(t.below(KINDS)) as u64);
                    }
                }
            };
            let mut sinks = (Busy { inner: &mut outs.0.0, hook: &hook }, Busy { inner: &mut outs.0.1, hook: &hook });
            let source = || if chunks[0] == 0 { ChunkReader::whole(&ws[0].bytes) } else { ChunkReader::new(&ws[0].bytes, sut::Plan::Fixed(chunks[0])) };
            let mut first = Machine::with(&ws[0], &mut sinks.0, &mut sinks.1, || Busy { inner: source(), hook: &hook }).run();
            let mut second = other.into_inner().run();
            (first.out, first.dumped) = outs.0;
            (second.out, second.dumped) = outs.1;
            (first, second)
        });
        let got = tri!(got.map_err(|p| bad("panic when one instance is used by the source or sink of another", p)));
        if got.0 != base[0] || got.1 != base[1] {
            return bad("an instance used by the source or sink of another influences it", describe_diff((got.1 != base[1]) as usize));
        }
        cx.count("calls within calls", calls.get());
        // In threads.
        if i.a(0) % 4 == 0 {
            let ws = &ws;
            let chunks = &chunks;
            let gate = std::sync::Barrier::new(n);
            let gate = &gate;
            let res: Vec<_> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..n).map(|k| s.spawn(move || {
                    gate.wait();
                    alone(&ws[k], chunks[k])
                })).collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
            });
            for (k, g) in res.into_iter().enumerate() {
                match g {
                    Ok(g) if g == base[k] => {}
                    Ok(_) => return bad("instances in different threads influence each other", describe_diff(k)),
                    Err(p) => return bad("panic in a thread", p),
                }
            }
            cx.count("threads", n as u64);
        }
        // From thread to thread.
        if i.a(0) % 4 == 1 {
            let mut outs: Vec<Outs> = vec![Outs::default(); n];
            let mut ms: Vec<Machine<_>> = ws.iter().zip(&mut outs).zip(&chunks).map(|((w, o), c)| Machine::new(w, o, *c)).collect();
            let mut hops = 0;
            let most = 4 + r.below(12);
            loop {
                let mut plan: Vec<(usize, usize, usize)> = (0..r.range(1, 12)).map(|_| (r.below(n), r.below(KINDS), r.range(1, 8))).collect();
                if hops >= most {
                    // The rest, on one more thread.
                    plan = (0..n).flat_map(|a| (0..KINDS).map(move |b| (a, b, usize::MAX))).collect();
                }
                let lent = Lent(&mut ms);
                let res = std::thread::scope(|s| {
                    s.spawn(move || {
                        let all = lent;
                        let ms = all.0;
                        sut::guarded(|| {
                            for (a, b, times) in plan {
                                for _ in 0..times {
                                    if !ms[a].step(b) {
                                        break;
                                    }
                                }
                            }
                        })
                    })
                    .join()
                    .unwrap_or_else(|_| Err("thread died".into()))
                });
                tri!(res.map_err(|p| bad("panic on another thread", p)));
                hops += 1;
                if hops > most {
                    break;
                }
            }
            let mut got: Vec<Result1> = ms.into_iter().map(|m| m.r).collect();
            for (g, o) in got.iter_mut().zip(outs) {
                (g.out, g.dumped) = o;
            }
            for k in 0..n {
                if got[k] != base[k] {
                    return bad("an instance that is moved between threads gives other results", describe_diff(k));
                }
            }
            cx.count("moves between threads", hops as u64);
        }
        let produced = base.iter().filter(|b| b.events.len() > 2 || b.emits.len() > 2).count();
        cx.count("events", base.iter().map(|b| b.events.len() as u64).sum());
        cx.shape(i.a(0) ^ switches);
        V::Ok(produced >= 2)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("switches between instances", 10_000), ("threads", 100), ("moves between threads", 100), ("calls within calls", 10_000), ("rounds in threads at once", 1000)]
    }
}
fn describe_diff(k: usize) -> String {
    format!("set #{k}")
}
