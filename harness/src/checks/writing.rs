//! Writing-side properties: the emitter.
use super::parity_read::*;
use crate::cmp::*;
use crate::gen_ev;
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sut;
use crate::tri;
use libyaml_safer as ys;
use std::cell::RefCell;
use std::io::{self, Write};
use std::rc::Rc;

// ---------------------------------------------------------------- shared
/// libyaml's own output, with UTF-16 written by `std` (libyaml's UTF-16 writer is broken above U+FFFF).
pub fn ref_emit(evs: &[Ev], cfg: &Cfg) -> EmitOut {
    ref_emit_changing(evs, cfg, &[])
}
pub fn ref_emit_changing(evs: &[Ev], cfg: &Cfg, steps: &[u64]) -> EmitOut {
    let enc = effective_encoding(evs, cfg);
    let mut c = *cfg;
    c.enc = 1;
    let mut o = crate::refl::emit_changing(evs, &c, steps);
    if enc >= 2 && matches!(evs.first(), Some(Ev::StreamStart(_))) {
        o.bytes = gen_yaml::to_utf16(&String::from_utf8(o.bytes).unwrap_or_default(), enc == 3, true);
    }
    o
}
pub fn effective_encoding(evs: &[Ev], cfg: &Cfg) -> u8 {
    if cfg.enc != 0 {
        return cfg.enc;
    }
    match evs.first() {
        Some(Ev::StreamStart(e)) if *e != 0 => *e,
        _ => 1,
    }
}
/// Text of emitted bytes, without the byte order mark.
pub fn text_of(b: &[u8], enc: u8) -> Option<String> {
    let s = decode(b, enc)?;
    Some(s.strip_prefix('\u{feff}').unwrap_or(&s).to_string())
}
fn has_nul(evs: &[Ev]) -> bool {
    let o = |s: &Option<String>| s.as_ref().is_some_and(|s| s.contains('\0'));
    evs.iter().any(|e| match e {
        Ev::Alias(a) => a.contains('\0'),
        Ev::DocStart { tags, .. } => tags.iter().any(|t| t.0.contains('\0') || t.1.contains('\0')),
        Ev::Scalar { anchor, tag, .. } | Ev::SeqStart { anchor, tag, .. } | Ev::MapStart { anchor, tag, .. } => o(anchor) || o(tag),
        _ => false,
    })
}

/// Does the parsed stream say what the emitted events said?
pub fn same_content(want: &[Ev], got: &EvTrace) -> Result<(), String> {
    if let Some(e) = &got.err {
        return Err(format!("the output does not parse: {:?} {} {}", e.kind, e.problem, e.text));
    }
    let w: Vec<&Ev> = want.iter().collect();
    for (k, (a, b)) in w.iter().zip(&got.items).enumerate() {
        let e = |m: &str| Err(format!("event #{k}: {m}: emitted {}, read back {}", short(a), short(&b.v)));
        match (a, &b.v) {
            (Ev::StreamStart(_), Ev::StreamStart(_)) | (Ev::StreamEnd, Ev::StreamEnd) | (Ev::DocEnd { .. }, Ev::DocEnd { .. }) | (Ev::SeqEnd, Ev::SeqEnd) | (Ev::MapEnd, Ev::MapEnd) => {}
            (Ev::DocStart { ver, tags, .. }, Ev::DocStart { ver: v2, tags: t2, .. }) => {
                if ver != v2 || tags != t2 {
                    return e("directives");
                }
            }
            (Ev::Alias(x), Ev::Alias(y)) => {
                if x != y {
                    return e("alias");
                }
            }
            (
                Ev::Scalar { anchor, tag, value, plain, quoted, .. },
                Ev::Scalar { anchor: a2, tag: t2, value: v2, style: s2, .. },
            ) => {
                if anchor != a2 {
                    return e("anchor");
                }
                if value != v2 {
                    return e("value");
                }
                let implicit = if *s2 == 1 { *plain } else { *quoted };
                let ok = match t2 {
                    None => implicit,
                    Some(t) if Some(t) == tag.as_ref() => true,
                    Some(t) => t == "!" && tag.is_none() && *s2 != 1 && !*quoted,
                };
                if !ok {
                    return e("tag");
                }
            }
            (Ev::SeqStart { anchor, tag, implicit, .. }, Ev::SeqStart { anchor: a2, tag: t2, .. })
            | (Ev::MapStart { anchor, tag, implicit, .. }, Ev::MapStart { anchor: a2, tag: t2, .. }) => {
                if anchor != a2 {
                    return e("anchor");
                }
                let ok = match t2 {
                    None => *implicit,
                    Some(_) => t2 == tag,
                };
                if !ok {
                    return e("tag");
                }
            }
            _ => return e("kind"),
        }
    }
    if w.len() != got.items.len() {
        return Err(format!("{} events emitted, {} read back", w.len(), got.items.len()));
    }
    Ok(())
}

fn shape_out(evs: &[Ev], out: &[u8]) -> u64 {
    // Which presentation features the emitter chose: punctuation skeleton of the output.
    let sk: Vec<u8> = out.iter().take(4000).filter(|b| b"-?:,[]{}&*!|>'\"%#\n\\".contains(b)).copied().collect();
    fnv(&sk) ^ (evs.len() as u64)
}
fn count_out(cx: &mut Ctx, evs: &[Ev], out: &[u8]) {
    cx.count("events emitted", evs.len() as u64);
    cx.count("bytes written", out.len() as u64);
    cx.shape(shape_out(evs, out));
}
fn gen_emit(r: &mut Rng) -> Input {
    let (evs, l) = gen_ev::any_stream(r);
    let mut i = Input::new(l);
    i.evs = evs;
    i.cfg = gen_ev::cfg(r);
    i
}

/// Is this exactly one complete stream (`stream_start (document_start node document_end)* stream_end`)?
pub fn nested(evs: &[Ev]) -> bool {
    let n = evs.len();
    if n < 2 || !matches!(evs[0], Ev::StreamStart(_)) || evs[n - 1] != Ev::StreamEnd {
        return false;
    }
    // Open collections: (is mapping, nodes so far); None outside documents.
    let mut doc: Option<u32> = None;
    let mut st: Vec<(bool, u64)> = vec![];
    for e in &evs[1..n - 1] {
        let node = |doc: &mut Option<u32>, st: &mut Vec<(bool, u64)>| match st.last_mut() {
            Some(t) => {
                t.1 += 1;
                true
            }
            None => match doc {
                Some(k) => {
                    *k += 1;
                    *k == 1
                }
                None => false,
            },
        };
        let ok = match e {
            Ev::StreamStart(_) | Ev::StreamEnd => false,
            Ev::DocStart { .. } => doc.is_none() && {
                doc = Some(0);
                true
            },
            Ev::DocEnd { .. } => st.is_empty() && doc.take() == Some(1),
            Ev::Alias(_) | Ev::Scalar { .. } => node(&mut doc, &mut st),
            Ev::SeqStart { .. } | Ev::MapStart { .. } => node(&mut doc, &mut st) && {
                st.push((matches!(e, Ev::MapStart { .. }), 0));
                true
            },
            Ev::SeqEnd => matches!(st.pop(), Some((false, _))),
            Ev::MapEnd => matches!(st.pop(), Some((true, k)) if k % 2 == 0),
        };
        if !ok {
            return false;
        }
    }
    doc.is_none()
}
/// Show where two outputs part.
pub fn diff_bytes(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let w = |v: &[u8]| {
        let v = &v[k.saturating_sub(60).min(v.len())..(k + 100).min(v.len())];
        format!("{:?}", String::from_utf8_lossy(v))
    };
    format!("at byte {k} of {}/{}:\ngot      {}\nexpected {}", a.len(), b.len(), w(a), w(b))
}

// ================================================================ C13 output parity
pub struct EmitParity;
impl Check for EmitParity {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "event streams (trees of every event kind, style, flag, tag and anchor class; scalar values of 20 classes; boundary streams) under random emitter settings, sometimes changed on the way; non-trivial when libyaml writes at least one document; distinct by stream and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_750_000, thorough: 22_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        crate::vast::all_streams()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = gen_emit(r);
        // Settings may be changed at any time.
        if r.chance(1, 8) && !i.evs.is_empty() {
            for _ in 0..r.range(1, 3) {
                let k = r.below(i.evs.len());
                let at = if r.bool() { k } else { (k..i.evs.len()).find(|k| matches!(i.evs[*k], Ev::DocStart { .. } | Ev::DocEnd { .. })).unwrap_or(k) };
                let what = r.below(5) as u64;
                let v = match what {
                    0 | 3 => r.below(2) as i64,
                    1 => r.range(0, 12) as i64 - 1,
                    2 => *r.pick(&[-1, 0, 1, 2, 5, 10, 20, 40, 80, 200, i32::MAX as i64]),
                    _ => r.range(1, 3) as i64,
                };
                i.aux.extend([at as u64, what, v as u64]);
            }
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if has_nul(&i.evs) {
            return V::Skip("NUL in a name cannot be given to libyaml");
        }
        let b = cx.reference(|| ref_emit_changing(&i.evs, &i.cfg, &i.aux));
        if b.err.is_some() {
            return V::Skip("libyaml rejects the stream");
        }
        let a = tri!(sut::emit_changing(&i.evs, &i.cfg, &i.aux).map_err(|p| bad("panic", p)));
        if !i.aux.is_empty() {
            cx.count("streams with settings changed on the way", 1);
        }
        if let Some((k, e)) = &a.err {
            return bad("the emitter rejects what libyaml writes", format!("event #{k}: {}", e.text));
        }
        if a.bytes != b.bytes {
            return bad(
                "output differs from libyaml's",
                diff_bytes(&a.bytes, &b.bytes),
            );
        }
        count_out(cx, &i.evs, &a.bytes);
        V::Ok(i.evs.len() > 4)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("bytes written", 10_000)]
    }
}

// ================================================================ C14 any event sequence
pub struct EmitErrors;
impl Check for EmitErrors {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "well-formed streams damaged at one to three places (events dropped, duplicated, swapped, replaced; invalid anchors, tags, handles, versions, flags) and sequences of unrelated events, fed on after each error; non-trivial when libyaml rejects an event; distinct by sequence and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 2_250_000, thorough: 30_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        crate::vast::all_streams()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = gen_emit(r);
        if r.chance(9, 10) {
            gen_ev::perturb(r, &mut i.evs);
        }
        if r.chance(1, 30) {
            let n = r.range(1, 8);
            i.evs = vec![];
            if r.bool() {
                i.evs.push(Ev::StreamStart(1));
            }
            for _ in 0..n {
                i.evs.push(Ev::StreamEnd);
                gen_ev::perturb(r, &mut i.evs);
            }
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        // Totality, feeding on after errors.
        let r = sut::guarded(|| {
            let mut out: Vec<u8> = vec![];
            let mut errs: Vec<(usize, ErrM)> = vec![];
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &i.cfg);
                for (k, e) in i.evs.iter().enumerate() {
                    if let Err(x) = em.emit(sut::ev_to(e)) {
                        errs.push((k, sut::err(&x)));
                    }
                }
            }
            (out, errs)
        });
        let (out, errs) = tri!(r.map_err(|p| bad("the emitter panicked", p)));
        let weight: usize = i.evs.iter().map(|e| format!("{e:?}").len()).sum();
        if out.len() > 200_000 + 400 * weight * (i.evs.len() + 10) {
            return bad("output out of proportion to the events", format!("{} bytes", out.len()));
        }
        for (_, e) in &errs {
            if e.kind != K::Emitter {
                return bad("an emitter error has another kind", format!("{e:?}"));
            }
            if e.problem.is_empty() || e.text != format!("Emitter error: {}", e.problem) {
                return bad("an emitter error does not describe itself", e.text.clone());
            }
        }
        cx.count("errors", errs.len() as u64);
        if has_nul(&i.evs) {
            return V::Skip("NUL in a name cannot be given to libyaml");
        }
        let b = cx.reference(|| ref_emit(&i.evs, &i.cfg));
        let a = errs.first().map(|e| (e.0, e.1.problem.clone()));
        match (&a, &b.err) {
            (_, Some((_, e))) if e.kind == K::Memory => return V::Skip("libyaml cannot represent the event"),
            (None, None) => {}
            (Some((k, p)), Some((k2, e))) => {
                if k != k2 || *p != e.problem {
                    return bad("the emitter fails differently from libyaml", format!("got #{k}: {p}; libyaml #{k2}: {}", e.problem));
                }
                cx.count(&format!("error: {p}"), 1);
            }
            (Some((k, p)), None) => return bad("the emitter rejects what libyaml accepts", format!("#{k}: {p}")),
            (None, Some((k, e))) => return bad("the emitter accepts what libyaml rejects", format!("#{k}: {}", e.problem)),
        }
        // When the last event was not acted upon, what is still buffered is up to the implementation.
        let cut = out.len().min(b.bytes.len());
        let same = if nested(&i.evs) { out == b.bytes } else { out[..cut] == b.bytes[..cut] };
        if a.is_none() && !same && !(out.is_empty() && b.bytes.len() == 2) {
            return bad("output differs from libyaml's", diff_bytes(&out, &b.bytes));
        }
        if a.is_none() && nested(&i.evs) {
            cx.count("complete streams compared", 1);
        }
        cx.shape(fnv(format!("{:?}", a).as_bytes()) ^ i.evs.len() as u64);
        V::Ok(a.is_some())
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("errors", 1000)]
    }
}

// ================================================================ C15 emit, then parse
pub struct RoundTrip;
fn round(evs: &[Ev], cfg: &Cfg, cx: &mut Ctx) -> V {
    let enc = effective_encoding(evs, cfg);
    let a = tri!(sut::emit(evs, cfg).map_err(|p| bad("panic while emitting", p)));
    let verdict = match &a.err {
        Some((k, e)) => Err(format!("event #{k} rejected: {}", e.text)),
        None => {
            let back = tri!(sut::parse(&a.bytes).map_err(|p| bad("panic while parsing the output", p)));
            match back.items.first().map(|x| &x.v) {
                Some(Ev::StreamStart(e)) if *e != enc => Err(format!("output announced as encoding {e}, asked for {enc}")),
                _ => same_content(evs, &back),
            }
        }
    };
    if let Err(m) = verdict {
        // libyaml itself does not preserve everything (for instance carriage returns in literal
        // scalars): the same stream through libyaml alone arbitrates.
        let exc = cx.reference(|| {
            let mut c = *cfg;
            c.enc = 1;
            let o = crate::refl::emit(evs, &c);
            o.err.is_some() || same_content(evs, &crate::refl::parse(&o.bytes, 0)).is_err()
        });
        if exc {
            return V::Skip("libyaml does not preserve this either");
        }
        return bad("what was emitted is not what is read back", format!("{m}\noutput {}", short(&String::from_utf8_lossy(&a.bytes))));
    }
    count_out(cx, evs, &a.bytes);
    V::Ok(evs.len() > 4)
}
impl Check for RoundTrip {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "event streams as C13, restricted to tags libyaml can write in half of the cases, under random settings and all three encodings; non-trivial when at least one node was read back; distinct by stream and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_750_000, thorough: 22_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        crate::vast::streams()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = gen_emit(r);
        if r.bool() {
            i.label = "tree-nice".into();
            let b = if r.chance(1, 60) { 300 } else { 25 };
            i.evs = gen_ev::stream(r, b, true);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if has_nul(&i.evs) {
            return V::Skip("NUL in a name");
        }
        round(&i.evs, &i.cfg, cx)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("bytes written", 10_000)]
    }
}

// ================================================================ C16 settings are obeyed
pub struct Settings;
impl Check for Settings {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "streams as C13 with every combination of canonical, indent 1..9 and out of range, width from 0 to unlimited, unicode, line break and encoding; the output text is examined directly and through its own token positions; non-trivial when the stream has a node; distinct by stream and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        crate::vast::streams()
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = gen_emit(r);
        if r.bool() {
            i.label = "tree-nice".into();
            i.evs = gen_ev::stream(r, 25, true);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if has_nul(&i.evs) {
            return V::Skip("NUL in a name");
        }
        let cfg = &i.cfg;
        let enc = effective_encoding(&i.evs, cfg);
        let a = tri!(sut::emit(&i.evs, cfg).map_err(|p| bad("panic", p)));
        if a.err.is_some() {
            return V::Skip("the emitter rejects the stream");
        }
        let out = &a.bytes;
        let bom: &[u8] = match enc {
            2 => &[0xff, 0xfe],
            3 => &[0xfe, 0xff],
            _ => &[],
        };
        if !i.evs.is_empty() && (!out.starts_with(bom) || (enc == 1 && out.starts_with(&[0xef, 0xbb, 0xbf]))) {
            return bad("wrong byte order mark", format!("{:?}", &out[..out.len().min(4)]));
        }
        let Some(text) = text_of(out, enc) else {
            return bad("the output is not valid in its encoding", format!("{:?}", String::from_utf8_lossy(out)));
        };
        let show = || text.chars().take(2000).collect::<String>();
        cx.count(["", "UTF-8 outputs", "UTF-16LE outputs", "UTF-16BE outputs"][enc as usize], 1);
        // Every character may stand in a stream.
        if let Some(c) = text.chars().find(|c| !allowed(*c)) {
            return bad("the output contains a character no stream may contain", format!("{c:?} in {}", show()));
        }
        // ASCII only unless Unicode is allowed.
        if !cfg.unicode {
            if let Some(c) = text.chars().find(|c| !c.is_ascii()) {
                return bad("non-ASCII output though Unicode is not allowed", format!("{c:?} in {}", show()));
            }
            cx.count("ASCII-only outputs", 1);
        }
        // Only the chosen line break (a carriage return in a value may be written as such).
        let cr_in_value = i.evs.iter().any(|e| matches!(e, Ev::Scalar { value, .. } if value.contains('\r')));
        if !cr_in_value {
            let b = text.as_bytes();
            let ok = match cfg.brk {
                Some(1) => !b.contains(&b'\n'),
                Some(3) => (0..b.len()).all(|k| match b[k] {
                    b'\n' => k > 0 && b[k - 1] == b'\r',
                    b'\r' => b.get(k + 1) == Some(&b'\n'),
                    _ => true,
                }),
                _ => !b.contains(&b'\r'),
            };
            if !ok {
                return bad("another line break than the chosen one", show());
            }
            cx.count(&format!("line break setting {:?}", cfg.brk), 1);
        }
        // The rest is read off the tokens and events of the output.
        let ev = tri!(sut::parse(out).map_err(|p| bad("panic", p)));
        let tk = tri!(sut::scan(out).map_err(|p| bad("panic", p)));
        if ev.err.is_some() || tk.err.is_some() {
            return V::Skip("the output does not parse (C15)");
        }
        if same_content(&i.evs, &ev).is_err() {
            return V::Skip("the output does not say what was emitted (C15)");
        }
        if cfg.canonical {
            for x in &ev.items {
                let ok = match &x.v {
                    Ev::Scalar { style, .. } => *style == 3,
                    Ev::SeqStart { style, .. } | Ev::MapStart { style, .. } => *style == 2,
                    Ev::DocStart { implicit, .. } => !*implicit,
                    _ => true,
                };
                if !ok {
                    return bad("canonical output uses another style", format!("{} in {}", short(&x.v), show()));
                }
            }
            cx.count("canonical outputs", 1);
        }
        let indent = match cfg.indent {
            Some(n) if (2..=9).contains(&n) => n as u64,
            _ => 2,
        };
        let width: Option<u64> = match cfg.width {
            Some(w) if w < 0 => None,
            Some(w) if w as u64 > 2 * indent => Some(w as u64),
            _ => Some(80),
        };
        // Block structure is indented by multiples of the setting. (Positions are exact only when no
        // character other than CR and LF counts as a line break inside the text.)
        let mut flow = 0;
        for x in &tk.items {
            match &x.v {
                Tok::FlowSeqStart | Tok::FlowMapStart => flow += 1,
                Tok::FlowSeqEnd | Tok::FlowMapEnd => flow -= 1,
                Tok::BlockEntry | Tok::Key if flow == 0 => {
                    // Position of the indicator or of the first property of the key.
                    if x.s.c % indent != 0 {
                        return bad("block structure is not indented by the setting", format!("indent {indent}, {} at line {} column {} of {}", short(&x.v), x.s.l, x.s.c, show()));
                    }
                    cx.count("block positions checked", 1);
                }
                _ => {}
            }
        }
        // Folding: plain and single-quoted scalars that are not simple keys.
        let lines: Vec<&str> = text.split(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']).collect();
        let crlf = text.contains("\r\n");
        let mut key_next = false;
        for x in &tk.items {
            match &x.v {
                Tok::Key => {
                    // A simple key: the indicator has no extent of its own.
                    key_next = x.s.i == x.e.i;
                    continue;
                }
                Tok::Anchor(_) | Tok::Tag(..) => continue,
                Tok::Scalar(value, style) if (1..=3).contains(style) && !crlf => {
                    let broken = value.contains(['\n', '\r', '\u{85}', '\u{2028}', '\u{2029}']);
                    let one_line = x.s.l == x.e.l || (*style == 1 && x.e.c == 0);
                    if (width.is_none() || key_next) && (!broken || *style == 3) && !one_line {
                        return bad("a scalar is folded though lines are unlimited or it is a simple key", format!("{} in {}", short(value), show()));
                    }
                    if let Some(w) = width {
                        if !key_next && *style != 3 && !broken {
                            for l in x.s.l..=x.e.l.min(lines.len() as u64 - 1) {
                                let line: Vec<char> = lines[l as usize].chars().collect();
                                let from = if l == x.s.l { x.s.c as usize + 2 } else { 0 };
                                let to = if l == x.e.l { (x.e.c as usize).min(line.len()) } else { line.len() };
                                let first = line.iter().position(|c| *c != ' ').unwrap_or(0);
                                for k in from.max(first + 1).max(w as usize + 1)..to.saturating_sub(2) {
                                    if line[k] == ' ' && line[k - 1] != ' ' && line[k + 1] != ' ' {
                                        return bad("a line goes on beyond the width though it could be folded", format!("width {w}, line {l} column {k} of {}", show()));
                                    }
                                }
                            }
                            cx.count("scalars checked against the width", 1);
                        }
                    }
                }
                _ => {}
            }
            key_next = false;
        }
        count_out(cx, &i.evs, out);
        V::Ok(i.evs.len() > 4)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("block positions checked", 100), ("ASCII-only outputs", 100), ("canonical outputs", 20), ("scalars checked against the width", 100)]
    }
}

// ================================================================ C17 sinks
pub struct Sinks;

#[derive(Default)]
struct SinkLog {
    got: Vec<u8>,
    writes: u64,
    interrupted: u64,
    refused: u64,
}
struct Sink {
    log: Rc<RefCell<SinkLog>>,
    rng: Rng,
    max: usize,
    interrupt: bool,
    /// Interruptions still to come in a row.
    burst: u32,
    fail_at: Option<(usize, Fault)>,
    /// Refuse once only.
    once: bool,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fault {
    Err(io::ErrorKind),
    Zero,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let mut l = self.log.borrow_mut();
        l.writes += 1;
        if self.burst > 0 || self.interrupt && self.rng.chance(1, 4) {
            if self.burst > 0 {
                self.burst -= 1;
            } else {
                self.burst = sut::interruptions(&mut self.rng) - 1;
            }
            l.interrupted += 1;
            return Err(io::Error::new(io::ErrorKind::Interrupted, "vmon interrupted"));
        }
        let mut n = b.len();
        if self.max > 0 {
            n = n.min(1 + self.rng.below(self.max));
        }
        if let Some((at, f)) = self.fail_at.filter(|_| !self.once || l.refused == 0) {
            let left = at.saturating_sub(l.got.len());
            if left == 0 && !b.is_empty() {
                l.refused += 1;
                return match f {
                    Fault::Err(k) => Err(sut::injected(k, at)),
                    Fault::Zero => Ok(0),
                };
            }
            n = n.min(left);
        }
        l.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const FAULTS: &[Fault] = &[
    Fault::Err(io::ErrorKind::Other),
    Fault::Err(io::ErrorKind::BrokenPipe),
    Fault::Err(io::ErrorKind::StorageFull),
    Fault::Err(io::ErrorKind::WouldBlock),
    Fault::Zero,
    Fault::Err(io::ErrorKind::UnexpectedEof),
];

impl Check for Sinks {
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        "streams as C13 written to a vector, through set_output_string, to sinks that accept 1..n bytes at a time with Interrupted results in between, and to sinks that fail (error or zero-length write) at a chosen byte; UTF-8 and UTF-16; non-trivial when at least one document was written; distinct by stream, settings and plan"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 625_000, thorough: 9_000_000 }
    }
    // aux: [seed, max bytes per write, interrupt, fault position, fault]
    fn fixed(&self) -> Vec<Input> {
        let mut v = crate::vast::all_streams();
        for (k, i) in v.iter_mut().enumerate() {
            i.aux = vec![k as u64, [0, 1, 4096, 100_000][k % 4], 0, 977 * k as u64 * k as u64, k as u64];
        }
        v
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = gen_emit(r);
        if r.chance(1, 25) {
            // Large outputs, to cross the emitter's buffer size.
            let n = r.range(1, 4);
            i.label = "large".into();
            i.evs = vec![Ev::StreamStart(r.below(4) as u8), Ev::DocStart { ver: None, tags: vec![], implicit: r.bool() }, Ev::SeqStart { anchor: None, tag: None, implicit: true, style: r.below(3) as u8 }];
            for _ in 0..n {
                let k = *r.pick(&[100, 4000, 8180, 8190, 16370, 16380, 16384, 16390, 20000, 33000]);
                let k = k + r.below(12);
                let c = *r.pick(&["x", "é", "漢", "😀", "x y", "word ", "\n"]);
                let mut v: String = c.repeat(k / c.len() + 1);
                if r.bool() {
                    v.insert(0, 'a');
                }
                i.evs.push(Ev::Scalar { anchor: None, tag: None, value: v, plain: true, quoted: true, style: r.below(6) as u8 });
            }
            i.evs.extend([Ev::SeqEnd, Ev::DocEnd { implicit: r.bool() }, Ev::StreamEnd]);
            i.cfg.unicode = r.chance(3, 4);
        }
        i.aux = vec![r.next() >> 40, *r.pick(&[0u64, 1, 2, 3, 7, 64, 4096]), r.below(2) as u64, r.next() >> 32, r.below(FAULTS.len()) as u64];
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if has_nul(&i.evs) {
            return V::Skip("NUL in a name");
        }
        let a = tri!(sut::emit(&i.evs, &i.cfg).map_err(|p| bad("panic", p)));
        let enc = effective_encoding(&i.evs, &i.cfg);
        if a.err.is_some() {
            return V::Skip("the emitter rejects the stream");
        }
        let good = &a.bytes;
        // The encoding only changes the encoding.
        if enc >= 2 {
            let mut c = i.cfg;
            c.enc = 1;
            let u = tri!(sut::emit(&i.evs, &c).map_err(|p| bad("panic", p)));
            let Ok(s) = String::from_utf8(u.bytes) else { return bad("UTF-8 output is not UTF-8", "") };
            if *good != gen_yaml::to_utf16(&s, enc == 3, true) {
                return bad("UTF-16 output is not the UTF-8 output transcoded", format!("{s:?}"));
            }
            cx.count("UTF-16 outputs compared", 1);
        }
        // set_output_string.
        if i.cfg.enc <= 1 {
            let mut c = i.cfg;
            c.enc = 1;
            let want = tri!(sut::emit(&i.evs, &c).map_err(|p| bad("panic", p))).bytes;
            let r = sut::guarded(|| {
                let mut v: Vec<u8> = b"old content".to_vec();
                let mut er = None;
                {
                    let mut em = ys::Emitter::new();
                    em.set_output_string(&mut v);
                    c.enc = 0;
                    sut::configure(&mut em, &c);
                    for e in &i.evs {
                        if let Err(x) = em.emit(sut::ev_to(e)) {
                            er = Some(x.to_string());
                            break;
                        }
                    }
                }
                (v, er)
            });
            let (v, er) = tri!(r.map_err(|p| bad("panic with set_output_string", p)));
            if er.is_some() || v != want {
                return bad("set_output_string gives other output", format!("{er:?} {}", diff_bytes(&v, &want)));
            }
            cx.count("string outputs compared", 1);
        }
        let lens = cx.reference(|| {
            let mut c = i.cfg;
            c.enc = 1;
            crate::refl::emit_lens(&i.evs, &c)
        });
        for faulty in [false, true] {
            let log = Rc::new(RefCell::new(SinkLog::default()));
            let at = if good.is_empty() { 0 } else { (i.a(3) as usize) % (good.len() + good.len() / 8 + 1) };
            let fault = FAULTS[i.a(4) as usize % FAULTS.len()];
            let mut sink = Sink {
                log: log.clone(),
                rng: Rng::new(i.a(0)),
                max: i.a(1) as usize,
                interrupt: i.a(2) == 1,
                burst: 0,
                fail_at: if faulty { Some((at, fault)) } else { None },
                once: false,
            };
            let mut io_err: Option<ys::Error> = None;
            let r = sut::guarded(|| {
                let mut em = ys::Emitter::new();
                em.set_output(&mut sink);
                sut::configure(&mut em, &i.cfg);
                for (k, e) in i.evs.iter().enumerate() {
                    let r = em.emit(sut::ev_to(e));
                    let refused = log.borrow().refused > 0;
                    match r {
                        Err(x) if io_err.is_none() => {
                            if !refused {
                                return Err(format!("event #{k} failed though the sink did not: {x}"));
                            }
                            io_err = Some(x);
                        }
                        Err(_) => {}
                        Ok(()) if io_err.is_some() => return Err(format!("event #{k} is taken after a failure")),
                        Ok(()) if refused && io_err.is_none() => return Err(format!("the sink failed during event #{k}, which succeeded")),
                        Ok(()) => {
                            // At the end of a document everything has been handed over.
                            if io_err.is_none() && matches!(e, Ev::DocEnd { .. } | Ev::StreamEnd) && (k < 3000 || k % 1001 == 0) {
                                let got = log.borrow().got.clone();
                                if let (Some(n), Some(s)) = (lens.get(k), text_of(&got, enc)) {
                                    if s.len() != *n {
                                        return Err(format!("after event #{k} the sink has {} bytes of text, libyaml has written {n}", s.len()));
                                    }
                                }
                            }
                        }
                    }
                }
                Ok(())
            });
            let l = log.borrow();
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => return bad(if faulty { "a sink error is not reported as it should be" } else { "output is not handed over as it should be" }, m),
                Err(p) => return bad("panic with a particular sink", p),
            }
            cx.count("writes", l.writes);
            cx.count("interrupted writes", l.interrupted);
            match (&io_err, faulty) {
                (None, _) => {
                    if l.got != *good {
                        return bad("the output depends on the sink", diff_bytes(&l.got, good));
                    }
                }
                (Some(e), _) => {
                    cx.count("sink failures reported", 1);
                    if l.got.len() > good.len() || l.got[..] != good[..l.got.len()] {
                        return bad("what a failing sink accepted is not a prefix of the output", diff_bytes(&l.got, good));
                    }
                    use std::error::Error as _;
                    let src = e.source().and_then(|s| s.downcast_ref::<io::Error>());
                    let ok = e.kind() == ys::ErrorKind::Io
                        && match fault {
                            Fault::Err(k) => src.is_some_and(|s| sut::is_injected(s, k, at)),
                            Fault::Zero => src.map(|s| s.kind()) == Some(io::ErrorKind::WriteZero),
                        };
                    if !ok {
                        return bad("a sink error is not the reported error's source", format!("{e} {fault:?}"));
                    }
                }
            }
        }
        if i.a(0) & 3 == 0 && !good.is_empty() {
            tri!(self.recovering(i, good, cx));
        }
        count_out(cx, &i.evs, good);
        V::Ok(i.evs.len() > 4)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("writes", 1000), ("sink failures reported", 100), ("UTF-16 outputs compared", 50)]
    }
}

impl Sinks {
    /// A sink that refuses once and then goes on: nothing is written twice, and nothing is left out
    /// unless an event failed.
    fn recovering(&self, i: &Input, good: &[u8], cx: &mut Ctx) -> Result<(), V> {
        let log = Rc::new(RefCell::new(SinkLog::default()));
        let at = (i.a(3) as usize) % good.len();
        let fault = FAULTS[i.a(4) as usize % FAULTS.len()];
        let mut sink = Sink { log: log.clone(), rng: Rng::new(i.a(0)), max: i.a(1) as usize, interrupt: i.a(2) == 1, burst: 0, fail_at: Some((at, fault)), once: true };
        let mut when = Rng::new(i.a(0) ^ 77);
        let r = sut::guarded(|| {
            let mut em = ys::Emitter::new();
            em.set_output(&mut sink);
            sut::configure(&mut em, &i.cfg);
            let (mut failed, mut told) = (false, false);
            for (k, e) in i.evs.iter().enumerate() {
                match em.emit(sut::ev_to(e)) {
                    Ok(()) if failed => return Err(format!("event #{k} is taken after a failure")),
                    Ok(()) => {}
                    Err(_) => {
                        failed = true;
                        told = true;
                    }
                }
                if when.chance(1, 2) {
                    told |= em.flush().is_err();
                }
                if log.borrow().refused > 0 && !told {
                    return Err(format!("the sink refused by event #{k}, and nobody was told"));
                }
            }
            for _ in 0..2 {
                let _ = em.flush();
            }
            Ok(failed)
        });
        let l = log.borrow();
        match r {
            Ok(Ok(failed)) => {
                if l.got.len() > good.len() || l.got[..] != good[..l.got.len()] {
                    return Err(bad("what a sink accepted after refusing once is not a prefix of the output", diff_bytes(&l.got, good)));
                }
                if !failed && l.got.len() < good.len() {
                    return Err(bad("output is lost though every event was taken", diff_bytes(&l.got, good)));
                }
                cx.count("sinks that refused once", l.refused);
                cx.count("sinks that refused a flush, and then took everything", (l.refused > 0 && !failed) as u64);
                Ok(())
            }
            Ok(Err(m)) => Err(bad("a sink that refuses once is not handled as it should be", m)),
            Err(p) => Err(bad("panic with a sink that refuses once", p)),
        }
    }
}

// ================================================================ C20 parse, emit, parse
pub struct Rewrite;
impl Check for Rewrite {
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "texts as C02 that the parser accepts; their events are emitted under random settings and parsed again; non-trivial when the stream has a document; distinct by input and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_500_000, thorough: 20_000_000 }
    }
    fn settle(&self, i: &mut Input) {
        crate::vast::accept(i);
    }
    fn fixed(&self) -> Vec<Input> {
        [seeds(), crate::vast::texts()].concat()
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut i = gen_read(r, t);
        i.aux.clear();
        i.cfg = gen_ev::cfg(r);
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let t = tri!(sut::parse(&i.bytes).map_err(|p| bad("panic", p)));
        if t.err.is_some() {
            return V::Skip("the text is rejected");
        }
        let evs: Vec<Ev> = t.items.into_iter().map(|x| x.v).collect();
        if has_nul(&evs) {
            return V::Skip("NUL in a name");
        }
        round(&evs, &i.cfg, cx)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("bytes written", 10_000)]
    }
}
