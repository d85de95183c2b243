//! Shared comparisons of traces.
use crate::model::*;
use crate::runner::{bad, V};
use crate::sut::ChunkReader;
use std::fmt::Debug;

pub fn short<T: Debug>(x: &T) -> String {
    let s = format!("{x:?}");
    if s.chars().count() > 300 {
        s.chars().take(300).collect::<String>() + "…"
    } else {
        s
    }
}

/// Do all runs of %-escapes in the input decode as UTF-8, and contain no NUL?
/// (libyaml passes invalid ones through as raw bytes; a `String` cannot hold those.)
pub fn escapes_clean(data: &[u8]) -> bool {
    // Look at the text with NULs removed, so that this works for UTF-16 as well.
    let b: Vec<u8> = data.iter().copied().filter(|x| *x != 0).collect();
    let mut i = 0;
    let hex = |x: u8| (x as char).to_digit(16);
    while i < b.len() {
        let mut run = vec![];
        while i + 2 < b.len() && b[i] == b'%' {
            match (hex(b[i + 1]), hex(b[i + 2])) {
                (Some(x), Some(y)) => run.push((x * 16 + y) as u8),
                _ => break,
            }
            i += 3;
        }
        if run.contains(&0) || std::str::from_utf8(&run).is_err() {
            return false;
        }
        if run.is_empty() {
            i += 1;
        }
    }
    true
}

pub fn is_reader(e: &Option<ErrM>) -> bool {
    matches!(e, Some(x) if x.kind == K::Reader)
}

/// Verdict-free situations when comparing with libyaml.
pub fn exempt<T>(data: &[u8], b: &Trace<T>) -> Option<&'static str> {
    if b.dirty {
        return Some("libyaml produced bytes that are not UTF-8");
    }
    if b.capped {
        return Some("reference capped");
    }
    if !escapes_clean(data) {
        return Some("tag escapes that are not UTF-8");
    }
    None
}

/// Compare the items of two traces with `f`; reader errors may surface earlier on either side
/// (read-ahead), then only the common prefix is comparable.
pub fn items<T: Debug>(
    what: &str,
    a: &Trace<T>,
    b: &Trace<T>,
    same: impl Fn(&At<T>, &At<T>) -> bool,
) -> Result<(), V> {
    let n = a.items.len().min(b.items.len());
    for i in 0..n {
        if !same(&a.items[i], &b.items[i]) {
            return Err(bad(
                format!("{what} differs from libyaml"),
                format!("#{i}: got      {}\n     libyaml  {}", short(&a.items[i]), short(&b.items[i])),
            ));
        }
    }
    if is_reader(&a.err) || is_reader(&b.err) {
        return Ok(());
    }
    if a.items.len() != b.items.len() {
        return Err(bad(
            format!("{what} count differs from libyaml"),
            format!(
                "got {} (end {}), libyaml {} (end {}); next: {}",
                a.items.len(),
                short(&a.err.as_ref().map(|e| &e.text)),
                b.items.len(),
                short(&b.err),
                short(&a.items.get(n).or(b.items.get(n)))
            ),
        ));
    }
    Ok(())
}

pub fn err_same(a: &Option<ErrM>, b: &Option<ErrM>, marks: bool) -> Result<(), V> {
    let show = |e: &Option<ErrM>| e.as_ref().map_or("accepted".to_string(), |e| short(e));
    match (a, b) {
        (None, None) => Ok(()),
        (Some(x), Some(y)) => {
            if x.kind == K::Reader || y.kind == K::Reader {
                return Ok(());
            }
            if x.kind != y.kind || x.problem != y.problem || x.context != y.context {
                return Err(bad("error differs from libyaml", format!("got {}\nlibyaml {}", show(a), show(b))));
            }
            if marks && (x.pm != y.pm || x.cm != y.cm) {
                return Err(bad("error marks differ from libyaml", format!("got {}\nlibyaml {}", show(a), show(b))));
            }
            Ok(())
        }
        _ => Err(bad("accepted/rejected differs from libyaml", format!("got {}\nlibyaml {}", show(a), show(b)))),
    }
}

pub fn trace_eq<T: PartialEq + Debug>(what: &str, a: &Trace<T>, b: &Trace<T>) -> Result<(), V> {
    for (i, (x, y)) in a.items.iter().zip(&b.items).enumerate() {
        if x != y {
            return Err(bad(what, format!("#{i}: {}\nvs   {}", short(x), short(y))));
        }
    }
    if a.items.len() != b.items.len() || a.err != b.err || a.capped != b.capped {
        return Err(bad(
            what,
            format!(
                "{} items, end {}\nvs {} items, end {}",
                a.items.len(),
                short(&a.err),
                b.items.len(),
                short(&b.err)
            ),
        ));
    }
    Ok(())
}
pub fn load_eq(what: &str, a: &LoadTrace, b: &LoadTrace) -> Result<(), V> {
    for (i, (x, y)) in a.docs.iter().zip(&b.docs).enumerate() {
        if x != y {
            return Err(bad(what, format!("document #{i}: {}\nvs   {}", short(x), short(y))));
        }
    }
    if a.docs.len() != b.docs.len() || a.err != b.err || a.capped != b.capped {
        return Err(bad(
            what,
            format!("{} documents, end {}\nvs {} documents, end {}", a.docs.len(), short(&a.err), b.docs.len(), short(&b.err)),
        ));
    }
    Ok(())
}

pub fn kinds_shape(items: &[At<Ev>]) -> u64 {
    let mut v = vec![];
    for i in items.iter().take(200) {
        v.push(match &i.v {
            Ev::StreamStart(e) => 1 + e,
            Ev::StreamEnd => 10,
            Ev::DocStart { implicit, ver, tags } => 20 + *implicit as u8 + 2 * ver.is_some() as u8 + 4 * !tags.is_empty() as u8,
            Ev::DocEnd { implicit } => 30 + *implicit as u8,
            Ev::Alias(_) => 40,
            Ev::Scalar { anchor, tag, plain, quoted, style, .. } => {
                64 + style + 8 * *plain as u8 + 16 * *quoted as u8 + 32 * anchor.is_some() as u8 + 64 * tag.is_some() as u8
            }
            Ev::SeqStart { implicit, style, anchor, .. } => 41 + style + 4 * *implicit as u8 + 8 * anchor.is_some() as u8,
            Ev::SeqEnd => 60,
            Ev::MapStart { implicit, style, anchor, .. } => 193u8.wrapping_add(style + 4 * *implicit as u8 + 8 * anchor.is_some() as u8),
            Ev::MapEnd => 61,
        });
    }
    fnv(&v)
}
pub fn count_events(cx: &mut crate::runner::Ctx, t: &EvTrace) {
    cx.count("events", t.items.len() as u64);
    for i in &t.items {
        let k = match &i.v {
            Ev::StreamStart(_) => continue,
            Ev::StreamEnd => "streams completed",
            Ev::DocStart { .. } => "documents",
            Ev::DocEnd { .. } => continue,
            Ev::Alias(_) => "aliases",
            Ev::Scalar { style, .. } => match style {
                1 => "plain scalars",
                2 => "single-quoted scalars",
                3 => "double-quoted scalars",
                4 => "literal scalars",
                _ => "folded scalars",
            },
            Ev::SeqStart { style, .. } => {
                if *style == 2 {
                    "flow sequences"
                } else {
                    "block sequences"
                }
            }
            Ev::MapStart { style, .. } => {
                if *style == 2 {
                    "flow mappings"
                } else {
                    "block mappings"
                }
            }
            _ => continue,
        };
        cx.count(k, 1);
    }
    if let Some(e) = &t.err {
        cx.count(&format!("{:?} errors", e.kind), 1);
    }
    cx.shape(kinds_shape(&t.items) ^ t.err.as_ref().map_or(0, |e| fnv(e.problem.as_bytes())));
}

/// A reader whose chunking is described by numbers (seed, mode, parameter).
pub fn chunked<'a>(data: &'a [u8], mode: u64, param: u64, seed: u64) -> ChunkReader<'a> {
    use crate::sut::Plan;
    let param = param as usize;
    match mode % 5 {
        0 => ChunkReader::new(data, Plan::Whole),
        1 => ChunkReader::new(data, Plan::Fixed(1 + param % 9)),
        2 => ChunkReader::new(data, Plan::Random(seed, 1 + param % 40)),
        3 => {
            let mut r = crate::rng::Rng::new(seed);
            let mut c: Vec<usize> = (0..1 + param % 6).map(|_| r.below(data.len() + 1)).collect();
            c.sort_unstable();
            ChunkReader::new(data, Plan::Cuts(c))
        }
        _ => ChunkReader::new(data, Plan::Random(seed, 1 + param % 9000)),
    }
}
