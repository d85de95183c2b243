//! Driving the implementation under test (libyaml-safer) and recording what it does.
use crate::model::*;
use crate::rng::{mix, Rng};
use libyaml_safer as ys;
use std::cell::{Cell, RefCell};
use std::io::{self, BufRead, Read};
use std::rc::Rc;

// ---------------------------------------------------------------- panic capture
thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or("?"), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} at {loc}")));
    }));
}

/// Run `f`; a panic becomes `Err(message)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

// ---------------------------------------------------------------- input reader
#[derive(Clone, Debug)]
pub enum Plan {
    Whole,
    Fixed(usize),
    Random(u64, usize),
    /// Cut exactly at these offsets.
    Cuts(Vec<usize>),
}

#[derive(Default, Debug)]
pub struct RStats {
    pub fills: Cell<u64>,
    pub fills_at_eof: Cell<u64>,
    pub consumed: Cell<u64>,
    pub interrupts: Cell<u64>,
    pub errors: Cell<u64>,
    /// Bytes exposed so far (largest offset handed out).
    pub exposed: Cell<u64>,
    /// The reader was told to consume more than it had exposed.
    pub overconsume: Cell<bool>,
}

pub struct ChunkReader<'a> {
    data: &'a [u8],
    pos: usize,
    end: usize,
    plan: Plan,
    rng: Rng,
    /// Per-call probability (in 1/256) of returning Interrupted.
    interrupt: u8,
    just_interrupted: bool,
    /// Interruptions still to come in a row.
    burst: u32,
    fail_at: Option<(usize, io::ErrorKind)>,
    /// Fail once only; asked again, go on with the data.
    once: bool,
    pub stats: Rc<RStats>,
}

/// What a failing source or sink reports: a text, a value of its own, an error of the operating
/// system, or just a kind.
#[derive(Debug)]
struct Injected(usize);
impl std::fmt::Display for Injected {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "vmon injected at {}", self.0)
    }
}
impl std::error::Error for Injected {}
pub fn injected(kind: io::ErrorKind, at: usize) -> io::Error {
    use io::ErrorKind::*;
    let os = match kind {
        BrokenPipe => 32,
        TimedOut => 110,
        WouldBlock => 11,
        NotFound => 2,
        PermissionDenied => 13,
        StorageFull => 28,
        Other => 5,
        _ => 0,
    };
    match at % 4 {
        1 => io::Error::new(kind, Injected(at)),
        2 if os != 0 => io::Error::from_raw_os_error(os),
        3 => io::Error::from(kind),
        _ => io::Error::new(kind, "vmon injected"),
    }
}
/// How many interruptions to deliver in a row: mostly one, at times many.
pub fn interruptions(r: &mut Rng) -> u32 {
    match r.below(4000) {
        0 => 5000,
        1..=40 => 2 + r.below(60) as u32,
        _ => 1,
    }
}
/// Is this error that one, whole?
pub fn is_injected(e: &io::Error, kind: io::ErrorKind, at: usize) -> bool {
    let w = injected(kind, at);
    let own = |e: &io::Error| e.get_ref().and_then(|x| x.downcast_ref::<Injected>()).map(|x| x.0);
    e.kind() == w.kind() && e.raw_os_error() == w.raw_os_error() && e.to_string() == w.to_string() && own(e) == own(&w) && e.get_ref().is_some() == w.get_ref().is_some()
}

pub const RUNAWAY: &str = "VMON_RUNAWAY";

impl<'a> ChunkReader<'a> {
    pub fn new(data: &'a [u8], plan: Plan) -> Self {
        let seed = match plan {
            Plan::Random(s, _) => s,
            _ => 1,
        };
        ChunkReader {
            data,
            pos: 0,
            end: 0,
            plan,
            rng: Rng::new(mix(seed)),
            interrupt: 0,
            just_interrupted: false,
            burst: 0,
            fail_at: None,
            once: false,
            stats: Rc::new(RStats::default()),
        }
    }
    pub fn whole(data: &'a [u8]) -> Self {
        Self::new(data, Plan::Whole)
    }
    pub fn interrupts(mut self, p: u8) -> Self {
        self.interrupt = p;
        self
    }
    pub fn fail_at(mut self, pos: usize, kind: io::ErrorKind) -> Self {
        self.fail_at = Some((pos, kind));
        self
    }
    pub fn once(mut self, once: bool) -> Self {
        self.once = once;
        self
    }
    fn recovered(&self) -> bool {
        self.once && self.stats.errors.get() > 0
    }
    fn limit(&self) -> usize {
        match self.fail_at.filter(|_| !self.recovered()) {
            Some((p, _)) => p.min(self.data.len()),
            None => self.data.len(),
        }
    }
}

impl Read for ChunkReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = {
            let avail = self.fill_buf()?;
            let n = avail.len().min(buf.len());
            buf[..n].copy_from_slice(&avail[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

impl BufRead for ChunkReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let st = &self.stats;
        st.fills.set(st.fills.get() + 1);
        if self.pos >= self.end {
            if self.burst > 0 || self.interrupt > 0 && !self.just_interrupted && (self.rng.below(256) as u8) < self.interrupt {
                if self.burst > 0 {
                    self.burst -= 1;
                } else {
                    self.burst = interruptions(&mut self.rng) - 1;
                }
                self.just_interrupted = self.burst == 0;
                st.interrupts.set(st.interrupts.get() + 1);
                return Err(io::Error::new(io::ErrorKind::Interrupted, "vmon interrupted"));
            }
            self.just_interrupted = false;
            let lim = self.limit();
            if self.pos >= lim {
                if let Some((at, k)) = self.fail_at.filter(|_| !self.recovered()) {
                    st.errors.set(st.errors.get() + 1);
                    if st.errors.get() > 100_000 {
                        panic!("{RUNAWAY}: input error polled more than 100000 times");
                    }
                    return Err(injected(k, at));
                }
                st.fills_at_eof.set(st.fills_at_eof.get() + 1);
                if st.fills_at_eof.get() > 200_000 + 16 * self.data.len() as u64 {
                    panic!("{RUNAWAY}: end of input polled more than 200000 times");
                }
                return Ok(&[]);
            }
            let n = match &self.plan {
                Plan::Whole => lim - self.pos,
                Plan::Fixed(n) => (*n).max(1),
                Plan::Random(_, m) => 1 + self.rng.below(*m),
                Plan::Cuts(c) => c.iter().copied().find(|&x| x > self.pos).unwrap_or(lim) - self.pos,
            };
            self.end = (self.pos + n).min(lim);
        }
        let st = &self.stats;
        if self.end as u64 > st.exposed.get() {
            st.exposed.set(self.end as u64);
        }
        Ok(&self.data[self.pos..self.end])
    }
    fn consume(&mut self, n: usize) {
        if self.pos + n > self.end.max(self.pos) {
            self.stats.overconsume.set(true);
            panic!("{RUNAWAY}: consume() of more bytes than were available");
        }
        self.pos += n;
        self.stats.consumed.set(self.pos as u64);
    }
}

// ---------------------------------------------------------------- conversions
pub fn enc_to(e: u8) -> ys::Encoding {
    match e {
        0 => ys::Encoding::Any,
        1 => ys::Encoding::Utf8,
        2 => ys::Encoding::Utf16Le,
        _ => ys::Encoding::Utf16Be,
    }
}
pub fn enc_from(e: ys::Encoding) -> u8 {
    match e {
        ys::Encoding::Any => 0,
        ys::Encoding::Utf8 => 1,
        ys::Encoding::Utf16Le => 2,
        ys::Encoding::Utf16Be => 3,
        _ => 99,
    }
}
pub fn brk_to(b: u8) -> ys::Break {
    match b {
        0 => ys::Break::Any,
        1 => ys::Break::Cr,
        2 => ys::Break::Ln,
        _ => ys::Break::CrLn,
    }
}
pub fn style_from(s: ys::ScalarStyle) -> u8 {
    match s {
        ys::ScalarStyle::Any => 0,
        ys::ScalarStyle::Plain => 1,
        ys::ScalarStyle::SingleQuoted => 2,
        ys::ScalarStyle::DoubleQuoted => 3,
        ys::ScalarStyle::Literal => 4,
        ys::ScalarStyle::Folded => 5,
        _ => 99,
    }
}
pub fn style_to(s: u8) -> ys::ScalarStyle {
    match s {
        0 => ys::ScalarStyle::Any,
        1 => ys::ScalarStyle::Plain,
        2 => ys::ScalarStyle::SingleQuoted,
        3 => ys::ScalarStyle::DoubleQuoted,
        4 => ys::ScalarStyle::Literal,
        _ => ys::ScalarStyle::Folded,
    }
}
pub fn seqst_to(s: u8) -> ys::SequenceStyle {
    match s {
        0 => ys::SequenceStyle::Any,
        1 => ys::SequenceStyle::Block,
        _ => ys::SequenceStyle::Flow,
    }
}
pub fn seqst_from(s: ys::SequenceStyle) -> u8 {
    match s {
        ys::SequenceStyle::Any => 0,
        ys::SequenceStyle::Block => 1,
        ys::SequenceStyle::Flow => 2,
        _ => 99,
    }
}
pub fn mapst_to(s: u8) -> ys::MappingStyle {
    match s {
        0 => ys::MappingStyle::Any,
        1 => ys::MappingStyle::Block,
        _ => ys::MappingStyle::Flow,
    }
}
pub fn mapst_from(s: ys::MappingStyle) -> u8 {
    match s {
        ys::MappingStyle::Any => 0,
        ys::MappingStyle::Block => 1,
        ys::MappingStyle::Flow => 2,
        _ => 99,
    }
}
pub fn mk(m: ys::Mark) -> Mk {
    Mk { i: m.index, l: m.line, c: m.column }
}
pub fn kind(k: ys::ErrorKind) -> K {
    match k {
        ys::ErrorKind::Reader => K::Reader,
        ys::ErrorKind::Scanner => K::Scanner,
        ys::ErrorKind::Parser => K::Parser,
        ys::ErrorKind::Composer => K::Composer,
        ys::ErrorKind::Emitter => K::Emitter,
        ys::ErrorKind::Io => K::Io,
    }
}
pub fn err(e: &ys::Error) -> ErrM {
    ErrM {
        kind: kind(e.kind()),
        problem: e.problem().to_string(),
        context: e.context().map(str::to_string),
        pm: e.problem_mark().map(mk),
        cm: e.context_mark().map(mk),
        text: format!("{e}"),
    }
}

/// Mint `VersionDirective` values (the type cannot be constructed outside its crate).
pub fn version(major: i32, minor: i32) -> ys::VersionDirective {
    thread_local! { static V: ys::VersionDirective = mint().0; }
    let mut v = V.with(|v| *v);
    v.major = major;
    v.minor = minor;
    v
}
pub fn tag_directive(handle: &str, prefix: &str) -> ys::TagDirective {
    thread_local! { static T: ys::TagDirective = mint().1; }
    let mut t = T.with(|t| t.clone());
    t.handle = handle.to_string();
    t.prefix = prefix.to_string();
    t
}
fn mint() -> (ys::VersionDirective, ys::TagDirective) {
    let text = b"%YAML 1.1\n%TAG !a! tag:a,2000:\n--- x\n";
    let mut p = ys::Parser::new();
    p.set_input(ChunkReader::whole(text));
    loop {
        let e = p.parse().expect("mint");
        if let ys::EventData::DocumentStart { version_directive: Some(v), tag_directives, .. } = e.data {
            return (v, tag_directives[0].clone());
        }
    }
}

pub fn ev_from(d: ys::EventData) -> Ev {
    use ys::EventData as D;
    match d {
        D::StreamStart { encoding } => Ev::StreamStart(enc_from(encoding)),
        D::StreamEnd => Ev::StreamEnd,
        D::DocumentStart { version_directive, tag_directives, implicit } => Ev::DocStart {
            ver: version_directive.map(|v| (v.major, v.minor)),
            tags: tag_directives.into_iter().map(|t| (t.handle, t.prefix)).collect(),
            implicit,
        },
        D::DocumentEnd { implicit } => Ev::DocEnd { implicit },
        D::Alias { anchor } => Ev::Alias(anchor),
        D::Scalar { anchor, tag, value, plain_implicit, quoted_implicit, style } => Ev::Scalar {
            anchor,
            tag,
            value,
            plain: plain_implicit,
            quoted: quoted_implicit,
            style: style_from(style),
        },
        D::SequenceStart { anchor, tag, implicit, style } => {
            Ev::SeqStart { anchor, tag, implicit, style: seqst_from(style) }
        }
        D::SequenceEnd => Ev::SeqEnd,
        D::MappingStart { anchor, tag, implicit, style } => {
            Ev::MapStart { anchor, tag, implicit, style: mapst_from(style) }
        }
        D::MappingEnd => Ev::MapEnd,
    }
}

pub fn ev_to(e: &Ev) -> ys::Event {
    match e {
        Ev::StreamStart(enc) => ys::Event::stream_start(enc_to(*enc)),
        Ev::StreamEnd => ys::Event::stream_end(),
        Ev::DocStart { ver, tags, implicit } => {
            let t: Vec<_> = tags.iter().map(|(h, p)| tag_directive(h, p)).collect();
            ys::Event::document_start(ver.map(|(a, b)| version(a, b)), &t, *implicit)
        }
        Ev::DocEnd { implicit } => ys::Event::document_end(*implicit),
        Ev::Alias(a) => ys::Event::alias(a),
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
            ys::Event::scalar(anchor.as_deref(), tag.as_deref(), value, *plain, *quoted, style_to(*style))
        }
        Ev::SeqStart { anchor, tag, implicit, style } => {
            ys::Event::sequence_start(anchor.as_deref(), tag.as_deref(), *implicit, seqst_to(*style))
        }
        Ev::SeqEnd => ys::Event::sequence_end(),
        Ev::MapStart { anchor, tag, implicit, style } => {
            ys::Event::mapping_start(anchor.as_deref(), tag.as_deref(), *implicit, mapst_to(*style))
        }
        Ev::MapEnd => ys::Event::mapping_end(),
    }
}

pub fn tok_from(d: ys::TokenData) -> Tok {
    use ys::TokenData as T;
    match d {
        T::StreamStart { encoding } => Tok::StreamStart(enc_from(encoding)),
        T::StreamEnd => Tok::StreamEnd,
        T::VersionDirective { major, minor } => Tok::Version(major, minor),
        T::TagDirective { handle, prefix } => Tok::TagDir(handle, prefix),
        T::DocumentStart => Tok::DocStart,
        T::DocumentEnd => Tok::DocEnd,
        T::BlockSequenceStart => Tok::BlockSeqStart,
        T::BlockMappingStart => Tok::BlockMapStart,
        T::BlockEnd => Tok::BlockEnd,
        T::FlowSequenceStart => Tok::FlowSeqStart,
        T::FlowSequenceEnd => Tok::FlowSeqEnd,
        T::FlowMappingStart => Tok::FlowMapStart,
        T::FlowMappingEnd => Tok::FlowMapEnd,
        T::BlockEntry => Tok::BlockEntry,
        T::FlowEntry => Tok::FlowEntry,
        T::Key => Tok::Key,
        T::Value => Tok::Value,
        T::Alias { value } => Tok::Alias(value),
        T::Anchor { value } => Tok::Anchor(value),
        T::Tag { handle, suffix } => Tok::Tag(handle, suffix),
        T::Scalar { value, style } => Tok::Scalar(value, style_from(style)),
    }
}

pub fn cap_for(n: usize) -> usize {
    8 * n + 64
}

// ---------------------------------------------------------------- runners
pub fn events_from<R: BufRead>(p: &mut ys::Parser<R>, cap: usize) -> EvTrace {
    let mut t = EvTrace::new();
    loop {
        match p.parse() {
            Ok(e) => {
                let s = mk(e.start_mark);
                let en = mk(e.end_mark);
                let v = ev_from(e.data);
                let end = v == Ev::StreamEnd;
                t.items.push(At { v, s, e: en });
                if end {
                    return t;
                }
                if t.items.len() > cap {
                    t.capped = true;
                    return t;
                }
            }
            Err(e) => {
                t.err = Some(err(&e));
                return t;
            }
        }
    }
}
pub fn tokens_from<R: BufRead>(p: &mut ys::Scanner<R>, cap: usize) -> TokTrace {
    let mut t = TokTrace::new();
    loop {
        match p.scan() {
            Ok(e) => {
                let s = mk(e.start_mark);
                let en = mk(e.end_mark);
                let v = tok_from(e.data);
                let end = v == Tok::StreamEnd;
                t.items.push(At { v, s, e: en });
                if end {
                    return t;
                }
                if t.items.len() > cap {
                    t.capped = true;
                    return t;
                }
            }
            Err(e) => {
                t.err = Some(err(&e));
                return t;
            }
        }
    }
}
pub fn doc_model(d: &ys::Document) -> DocM {
    DocM {
        nodes: d
            .nodes
            .iter()
            .map(|n| NodeM {
                k: match &n.data {
                    ys::NodeData::NoNode => NodeK::No,
                    ys::NodeData::Scalar { value, style } => NodeK::Scalar(value.clone(), style_from(*style)),
                    ys::NodeData::Sequence { items, style } => NodeK::Seq(items.clone(), seqst_from(*style)),
                    ys::NodeData::Mapping { pairs, style } => {
                        NodeK::Map(pairs.iter().map(|p| (p.key, p.value)).collect(), mapst_from(*style))
                    }
                },
                tag: n.tag.clone(),
                s: mk(n.start_mark),
                e: mk(n.end_mark),
            })
            .collect(),
        ver: d.version_directive.map(|v| (v.major, v.minor)),
        tags: d.tag_directives.iter().map(|t| (t.handle.clone(), t.prefix.clone())).collect(),
        si: d.start_implicit,
        ei: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
    }
}
pub fn load_from<R: BufRead>(p: &mut ys::Parser<R>, cap: usize) -> LoadTrace {
    let mut t = LoadTrace { docs: vec![], err: None, dirty: false, capped: false };
    loop {
        match ys::Document::load(p) {
            Ok(d) => {
                if d.nodes.is_empty() {
                    return t;
                }
                t.docs.push(doc_model(&d));
                if t.docs.len() > cap {
                    t.capped = true;
                    return t;
                }
            }
            Err(e) => {
                t.err = Some(err(&e));
                return t;
            }
        }
    }
}

pub fn parse_with(r: ChunkReader, enc: u8, n: usize) -> Result<EvTrace, String> {
    guarded(|| {
        // Both ways to make one.
        let mut p = if n % 2 == 1 { ys::Parser::default() } else { ys::Parser::new() };
        p.set_input(r);
        if enc != 0 {
            p.set_encoding(enc_to(enc));
        }
        events_from(&mut p, cap_for(n))
    })
}
pub fn scan_with(r: ChunkReader, enc: u8, n: usize) -> Result<TokTrace, String> {
    guarded(|| {
        // Both ways to make one.
        let mut p = if n % 2 == 1 { ys::Scanner::default() } else { ys::Scanner::new() };
        p.set_input(r);
        if enc != 0 {
            p.set_encoding(enc_to(enc));
        }
        tokens_from(&mut p, cap_for(n))
    })
}
pub fn load_with(r: ChunkReader, enc: u8, n: usize) -> Result<LoadTrace, String> {
    guarded(|| {
        // Both ways to make one.
        let mut p = if n % 2 == 1 { ys::Parser::default() } else { ys::Parser::new() };
        p.set_input(r);
        if enc != 0 {
            p.set_encoding(enc_to(enc));
        }
        load_from(&mut p, cap_for(n))
    })
}
pub fn parse(data: &[u8]) -> Result<EvTrace, String> {
    parse_with(ChunkReader::whole(data), 0, data.len())
}
pub fn scan(data: &[u8]) -> Result<TokTrace, String> {
    scan_with(ChunkReader::whole(data), 0, data.len())
}
pub fn load(data: &[u8]) -> Result<LoadTrace, String> {
    load_with(ChunkReader::whole(data), 0, data.len())
}

pub fn configure(em: &mut ys::Emitter, c: &Cfg) {
    em.set_canonical(c.canonical);
    if let Some(i) = c.indent {
        em.set_indent(i);
    }
    if let Some(w) = c.width {
        em.set_width(w);
    }
    em.set_unicode(c.unicode);
    if let Some(b) = c.brk {
        em.set_break(brk_to(b));
    }
    if c.enc != 0 {
        em.set_encoding(enc_to(c.enc));
    }
}

/// Change a setting of an emitter that may have started.
fn change(em: &mut ys::Emitter, what: u64, v: i64) {
    match what {
        0 => em.set_canonical(v != 0),
        1 => em.set_indent(v as i32),
        2 => em.set_width(v as i32),
        3 => em.set_unicode(v != 0),
        _ => em.set_break(brk_to(v.clamp(1, 3) as u8)),
    }
}
/// Emit `evs`, stopping at the first error; collected output.
pub fn emit(evs: &[Ev], cfg: &Cfg) -> Result<EmitOut, String> {
    emit_changing(evs, cfg, &[])
}
/// Settings changed before the events named by the steps (event, setting, value).
pub fn emit_changing(evs: &[Ev], cfg: &Cfg, steps: &[u64]) -> Result<EmitOut, String> {
    guarded(|| {
        let mut out: Vec<u8> = Vec::new();
        let mut e = None;
        {
            let mut em = if evs.len() % 2 == 1 { ys::Emitter::default() } else { ys::Emitter::new() };
            em.set_output(&mut out);
            configure(&mut em, cfg);
            for (i, ev) in evs.iter().enumerate() {
                for c in steps.chunks_exact(3).filter(|c| c[0] == i as u64) {
                    change(&mut em, c[1], c[2] as i64);
                }
                if let Err(x) = em.emit(ev_to(ev)) {
                    e = Some((i, err(&x)));
                    break;
                }
            }
        }
        EmitOut { bytes: out, err: e }
    })
}
