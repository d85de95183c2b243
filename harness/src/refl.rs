//! The reference: the vendored unsafe-libyaml (a mechanical translation of libyaml).
use crate::model::*;
use std::ffi::c_void;
use std::mem::MaybeUninit;
use std::ptr;
use unsafe_libyaml as u;

struct S {
    dirty: bool,
}
unsafe fn cstr(p: *const u8, st: &mut S) -> String {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    slen(p, n, st)
}
unsafe fn slen(p: *const u8, n: usize, st: &mut S) -> String {
    let b = if n == 0 { &[][..] } else { std::slice::from_raw_parts(p, n) };
    match std::str::from_utf8(b) {
        Ok(s) => s.to_string(),
        Err(_) => {
            st.dirty = true;
            String::from_utf8_lossy(b).into_owned()
        }
    }
}
unsafe fn ostr(p: *const u8, st: &mut S) -> Option<String> {
    if p.is_null() {
        None
    } else {
        Some(cstr(p, st))
    }
}
fn mk(m: u::yaml_mark_t) -> Mk {
    Mk { i: m.index, l: m.line, c: m.column }
}
unsafe fn perr(p: *const u::yaml_parser_t) -> ErrM {
    let mut st = S { dirty: false };
    let pr = &**p;
    let kind = match pr.error {
        u::YAML_READER_ERROR => K::Reader,
        u::YAML_SCANNER_ERROR => K::Scanner,
        u::YAML_PARSER_ERROR => K::Parser,
        u::YAML_COMPOSER_ERROR => K::Composer,
        _ => K::Memory,
    };
    let problem = ostr(pr.problem.cast(), &mut st).unwrap_or_default();
    let context = if kind == K::Reader { None } else { ostr(pr.context.cast(), &mut st) };
    ErrM {
        kind,
        problem,
        cm: context.as_ref().map(|_| mk(pr.context_mark)),
        context,
        pm: if kind == K::Reader { None } else { Some(mk(pr.problem_mark)) },
        text: if kind == K::Reader { format!("offset {} value {}", pr.problem_offset, pr.problem_value) } else { String::new() },
    }
}

unsafe fn ev(e: &u::yaml_event_t, st: &mut S) -> Ev {
    match e.type_ {
        u::YAML_STREAM_START_EVENT => Ev::StreamStart(e.data.stream_start.encoding as u8),
        u::YAML_STREAM_END_EVENT => Ev::StreamEnd,
        u::YAML_DOCUMENT_START_EVENT => {
            let d = &e.data.document_start;
            let ver = if d.version_directive.is_null() {
                None
            } else {
                Some(((*d.version_directive).major, (*d.version_directive).minor))
            };
            let mut tags = vec![];
            let mut t = d.tag_directives.start;
            while t != d.tag_directives.end {
                tags.push((cstr((*t).handle, st), cstr((*t).prefix, st)));
                t = t.add(1);
            }
            Ev::DocStart { ver, tags, implicit: d.implicit }
        }
        u::YAML_DOCUMENT_END_EVENT => Ev::DocEnd { implicit: e.data.document_end.implicit },
        u::YAML_ALIAS_EVENT => Ev::Alias(cstr(e.data.alias.anchor, st)),
        u::YAML_SCALAR_EVENT => {
            let d = &e.data.scalar;
            Ev::Scalar {
                anchor: ostr(d.anchor, st),
                tag: ostr(d.tag, st),
                value: slen(d.value, d.length as usize, st),
                plain: d.plain_implicit,
                quoted: d.quoted_implicit,
                style: d.style as u8,
            }
        }
        u::YAML_SEQUENCE_START_EVENT => {
            let d = &e.data.sequence_start;
            Ev::SeqStart { anchor: ostr(d.anchor, st), tag: ostr(d.tag, st), implicit: d.implicit, style: d.style as u8 }
        }
        u::YAML_SEQUENCE_END_EVENT => Ev::SeqEnd,
        u::YAML_MAPPING_START_EVENT => {
            let d = &e.data.mapping_start;
            Ev::MapStart { anchor: ostr(d.anchor, st), tag: ostr(d.tag, st), implicit: d.implicit, style: d.style as u8 }
        }
        u::YAML_MAPPING_END_EVENT => Ev::MapEnd,
        _ => Ev::StreamEnd,
    }
}

struct P {
    p: Box<MaybeUninit<u::yaml_parser_t>>,
}
impl P {
    fn new(data: &[u8], enc: u8) -> P {
        unsafe {
            let mut p = P { p: Box::new(MaybeUninit::uninit()) };
            assert!(u::yaml_parser_initialize(p.p.as_mut_ptr()).ok);
            let d: *const u8 = if data.is_empty() { b"\0".as_ptr() } else { data.as_ptr() };
            u::yaml_parser_set_input_string(p.p.as_mut_ptr(), d, data.len() as u64);
            if enc != 0 {
                u::yaml_parser_set_encoding(p.p.as_mut_ptr(), encc(enc));
            }
            p
        }
    }
    fn ptr(&mut self) -> *mut u::yaml_parser_t {
        self.p.as_mut_ptr()
    }
}
impl Drop for P {
    fn drop(&mut self) {
        unsafe { u::yaml_parser_delete(self.p.as_mut_ptr()) }
    }
}
fn encc(e: u8) -> u::yaml_encoding_t {
    match e {
        0 => u::YAML_ANY_ENCODING,
        1 => u::YAML_UTF8_ENCODING,
        2 => u::YAML_UTF16LE_ENCODING,
        _ => u::YAML_UTF16BE_ENCODING,
    }
}

pub fn parse(data: &[u8], enc: u8) -> EvTrace {
    let mut t = EvTrace::new();
    let mut st = S { dirty: false };
    let mut p = P::new(data, enc);
    let cap = crate::sut::cap_for(data.len());
    unsafe {
        loop {
            let mut e = MaybeUninit::<u::yaml_event_t>::zeroed();
            if u::yaml_parser_parse(p.ptr(), e.as_mut_ptr()).fail {
                t.err = Some(perr(p.ptr()));
                break;
            }
            let er = &*e.as_ptr();
            let v = ev(er, &mut st);
            let end = v == Ev::StreamEnd;
            t.items.push(At { v, s: mk(er.start_mark), e: mk(er.end_mark) });
            u::yaml_event_delete(e.as_mut_ptr());
            if end {
                break;
            }
            if t.items.len() > cap {
                t.capped = true;
                break;
            }
        }
    }
    t.dirty = st.dirty;
    t
}

struct Lazy<'a> {
    data: &'a [u8],
    pos: usize,
}
unsafe fn lazy_read(data: *mut c_void, buffer: *mut u8, size: u64, size_read: *mut u64) -> i32 {
    let l = &mut *data.cast::<Lazy>();
    let n = (size as usize).min(1).min(l.data.len() - l.pos);
    if n == 1 {
        *buffer = l.data[l.pos];
    }
    l.pos += n;
    *size_read = n as u64;
    1
}
/// How many bytes have been read when each event is returned (input arrives byte by byte).
pub fn parse_lazy(data: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    let mut l = Lazy { data, pos: 0 };
    unsafe {
        let mut p = P { p: Box::new(MaybeUninit::uninit()) };
        assert!(u::yaml_parser_initialize(p.p.as_mut_ptr()).ok);
        let l = &mut l as *mut Lazy;
        u::yaml_parser_set_input(p.ptr(), lazy_read, l.cast());
        loop {
            let mut e = MaybeUninit::<u::yaml_event_t>::zeroed();
            if u::yaml_parser_parse(p.ptr(), e.as_mut_ptr()).fail {
                break;
            }
            let end = (*e.as_ptr()).type_ == u::YAML_STREAM_END_EVENT;
            u::yaml_event_delete(e.as_mut_ptr());
            v.push((*l).pos as u64);
            if end || v.len() > crate::sut::cap_for(data.len()) {
                break;
            }
        }
    }
    v
}

/// The same for tokens.
pub fn scan_lazy(data: &[u8]) -> Vec<u64> {
    let mut v = vec![];
    let mut l = Lazy { data, pos: 0 };
    unsafe {
        let mut p = P { p: Box::new(MaybeUninit::uninit()) };
        assert!(u::yaml_parser_initialize(p.p.as_mut_ptr()).ok);
        let l = &mut l as *mut Lazy;
        u::yaml_parser_set_input(p.ptr(), lazy_read, l.cast());
        loop {
            let mut e = MaybeUninit::<u::yaml_token_t>::zeroed();
            if u::yaml_parser_scan(p.ptr(), e.as_mut_ptr()).fail {
                break;
            }
            let end = matches!((*e.as_ptr()).type_, u::YAML_STREAM_END_TOKEN | u::YAML_NO_TOKEN);
            u::yaml_token_delete(e.as_mut_ptr());
            v.push((*l).pos as u64);
            if end || v.len() > crate::sut::cap_for(data.len()) {
                break;
            }
        }
    }
    v
}

pub fn scan(data: &[u8], enc: u8) -> TokTrace {
    let mut t = TokTrace::new();
    let mut st = S { dirty: false };
    let mut p = P::new(data, enc);
    let cap = crate::sut::cap_for(data.len());
    unsafe {
        loop {
            let mut e = MaybeUninit::<u::yaml_token_t>::zeroed();
            if u::yaml_parser_scan(p.ptr(), e.as_mut_ptr()).fail {
                t.err = Some(perr(p.ptr()));
                break;
            }
            let k = &*e.as_ptr();
            let s = &mut st;
            let v = match k.type_ {
                u::YAML_STREAM_START_TOKEN => Tok::StreamStart(k.data.stream_start.encoding as u8),
                u::YAML_STREAM_END_TOKEN => Tok::StreamEnd,
                u::YAML_VERSION_DIRECTIVE_TOKEN => {
                    Tok::Version(k.data.version_directive.major, k.data.version_directive.minor)
                }
                u::YAML_TAG_DIRECTIVE_TOKEN => {
                    Tok::TagDir(cstr(k.data.tag_directive.handle, s), cstr(k.data.tag_directive.prefix, s))
                }
                u::YAML_DOCUMENT_START_TOKEN => Tok::DocStart,
                u::YAML_DOCUMENT_END_TOKEN => Tok::DocEnd,
                u::YAML_BLOCK_SEQUENCE_START_TOKEN => Tok::BlockSeqStart,
                u::YAML_BLOCK_MAPPING_START_TOKEN => Tok::BlockMapStart,
                u::YAML_BLOCK_END_TOKEN => Tok::BlockEnd,
                u::YAML_FLOW_SEQUENCE_START_TOKEN => Tok::FlowSeqStart,
                u::YAML_FLOW_SEQUENCE_END_TOKEN => Tok::FlowSeqEnd,
                u::YAML_FLOW_MAPPING_START_TOKEN => Tok::FlowMapStart,
                u::YAML_FLOW_MAPPING_END_TOKEN => Tok::FlowMapEnd,
                u::YAML_BLOCK_ENTRY_TOKEN => Tok::BlockEntry,
                u::YAML_FLOW_ENTRY_TOKEN => Tok::FlowEntry,
                u::YAML_KEY_TOKEN => Tok::Key,
                u::YAML_VALUE_TOKEN => Tok::Value,
                u::YAML_ALIAS_TOKEN => Tok::Alias(cstr(k.data.alias.value, s)),
                u::YAML_ANCHOR_TOKEN => Tok::Anchor(cstr(k.data.anchor.value, s)),
                u::YAML_TAG_TOKEN => Tok::Tag(cstr(k.data.tag.handle, s), cstr(k.data.tag.suffix, s)),
                u::YAML_SCALAR_TOKEN => {
                    let d = &k.data.scalar;
                    Tok::Scalar(slen(d.value, d.length as usize, s), d.style as u8)
                }
                _ => Tok::StreamEnd,
            };
            let end = v == Tok::StreamEnd;
            t.items.push(At { v, s: mk(k.start_mark), e: mk(k.end_mark) });
            u::yaml_token_delete(e.as_mut_ptr());
            if end {
                break;
            }
            if t.items.len() > cap {
                t.capped = true;
                break;
            }
        }
    }
    t.dirty = st.dirty;
    t
}

unsafe fn docm(d: &u::yaml_document_t, st: &mut S) -> DocM {
    let mut nodes = vec![];
    let mut n = d.nodes.start;
    while n != d.nodes.top {
        let k = match (*n).type_ {
            u::YAML_SCALAR_NODE => {
                let s = &(*n).data.scalar;
                NodeK::Scalar(slen(s.value, s.length as usize, st), s.style as u8)
            }
            u::YAML_SEQUENCE_NODE => {
                let s = &(*n).data.sequence;
                let mut v = vec![];
                let mut i = s.items.start;
                while i != s.items.top {
                    v.push(*i);
                    i = i.add(1);
                }
                NodeK::Seq(v, s.style as u8)
            }
            u::YAML_MAPPING_NODE => {
                let s = &(*n).data.mapping;
                let mut v = vec![];
                let mut i = s.pairs.start;
                while i != s.pairs.top {
                    v.push(((*i).key, (*i).value));
                    i = i.add(1);
                }
                NodeK::Map(v, s.style as u8)
            }
            _ => NodeK::No,
        };
        nodes.push(NodeM { k, tag: ostr((*n).tag, st), s: mk((*n).start_mark), e: mk((*n).end_mark) });
        n = n.add(1);
    }
    let mut tags = vec![];
    let mut t = d.tag_directives.start;
    while t != d.tag_directives.end {
        tags.push((cstr((*t).handle, st), cstr((*t).prefix, st)));
        t = t.add(1);
    }
    DocM {
        nodes,
        ver: if d.version_directive.is_null() {
            None
        } else {
            Some(((*d.version_directive).major, (*d.version_directive).minor))
        },
        tags,
        si: d.start_implicit,
        ei: d.end_implicit,
        s: mk(d.start_mark),
        e: mk(d.end_mark),
    }
}

pub fn load(data: &[u8], enc: u8) -> LoadTrace {
    let mut t = LoadTrace { docs: vec![], err: None, dirty: false, capped: false };
    let mut st = S { dirty: false };
    let mut p = P::new(data, enc);
    let cap = crate::sut::cap_for(data.len());
    unsafe {
        loop {
            let mut d = MaybeUninit::<u::yaml_document_t>::zeroed();
            if u::yaml_parser_load(p.ptr(), d.as_mut_ptr()).fail {
                t.err = Some(perr(p.ptr()));
                break;
            }
            let m = docm(&*d.as_ptr(), &mut st);
            let empty = m.nodes.is_empty();
            u::yaml_document_delete(d.as_mut_ptr());
            if empty {
                break;
            }
            t.docs.push(m);
            if t.docs.len() > cap {
                t.capped = true;
                break;
            }
        }
    }
    t.dirty = st.dirty;
    t
}

// ------------------------------------------------------------------- emitter
struct CS(Vec<Vec<u8>>);
impl CS {
    fn get(&mut self, s: &str) -> *mut u8 {
        let mut v = s.as_bytes().to_vec();
        v.push(0);
        let p = v.as_mut_ptr();
        self.0.push(v);
        p
    }
    fn opt(&mut self, s: &Option<String>) -> *mut u8 {
        match s {
            Some(s) => self.get(s),
            None => ptr::null_mut(),
        }
    }
}

unsafe fn make(e: &Ev, out: *mut u::yaml_event_t) -> bool {
    let mut cs = CS(vec![]);
    match e {
        Ev::StreamStart(enc) => u::yaml_stream_start_event_initialize(out, encc(*enc)).ok,
        Ev::StreamEnd => u::yaml_stream_end_event_initialize(out).ok,
        Ev::DocStart { ver, tags, implicit } => {
            let mut v = MaybeUninit::<u::yaml_version_directive_t>::zeroed();
            let vp = match ver {
                Some((a, b)) => {
                    (*v.as_mut_ptr()).major = *a;
                    (*v.as_mut_ptr()).minor = *b;
                    v.as_mut_ptr()
                }
                None => ptr::null_mut(),
            };
            let mut td: Vec<u::yaml_tag_directive_t> = vec![];
            for (h, p) in tags {
                let mut t = MaybeUninit::<u::yaml_tag_directive_t>::zeroed();
                (*t.as_mut_ptr()).handle = cs.get(h);
                (*t.as_mut_ptr()).prefix = cs.get(p);
                td.push(t.assume_init());
            }
            let start = if td.is_empty() { ptr::null_mut() } else { td.as_mut_ptr() };
            let end = if td.is_empty() { ptr::null_mut() } else { td.as_mut_ptr().add(td.len()) };
            u::yaml_document_start_event_initialize(out, vp, start, end, *implicit).ok
        }
        Ev::DocEnd { implicit } => u::yaml_document_end_event_initialize(out, *implicit).ok,
        Ev::Alias(a) => u::yaml_alias_event_initialize(out, cs.get(a)).ok,
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
            let v = cs.get(value);
            u::yaml_scalar_event_initialize(
                out,
                cs.opt(anchor),
                cs.opt(tag),
                v,
                value.len() as i32,
                *plain,
                *quoted,
                match style {
                    0 => u::YAML_ANY_SCALAR_STYLE,
                    1 => u::YAML_PLAIN_SCALAR_STYLE,
                    2 => u::YAML_SINGLE_QUOTED_SCALAR_STYLE,
                    3 => u::YAML_DOUBLE_QUOTED_SCALAR_STYLE,
                    4 => u::YAML_LITERAL_SCALAR_STYLE,
                    _ => u::YAML_FOLDED_SCALAR_STYLE,
                },
            )
            .ok
        }
        Ev::SeqStart { anchor, tag, implicit, style } => {
            u::yaml_sequence_start_event_initialize(
                out,
                cs.opt(anchor),
                cs.opt(tag),
                *implicit,
                match style {
                    0 => u::YAML_ANY_SEQUENCE_STYLE,
                    1 => u::YAML_BLOCK_SEQUENCE_STYLE,
                    _ => u::YAML_FLOW_SEQUENCE_STYLE,
                },
            )
            .ok
        }
        Ev::SeqEnd => u::yaml_sequence_end_event_initialize(out).ok,
        Ev::MapStart { anchor, tag, implicit, style } => {
            u::yaml_mapping_start_event_initialize(
                out,
                cs.opt(anchor),
                cs.opt(tag),
                *implicit,
                match style {
                    0 => u::YAML_ANY_MAPPING_STYLE,
                    1 => u::YAML_BLOCK_MAPPING_STYLE,
                    _ => u::YAML_FLOW_MAPPING_STYLE,
                },
            )
            .ok
        }
        Ev::MapEnd => u::yaml_mapping_end_event_initialize(out).ok,
    }
}

unsafe fn wh(data: *mut c_void, buf: *mut u8, size: u64) -> i32 {
    let v = &mut *(data as *mut Vec<u8>);
    v.extend_from_slice(std::slice::from_raw_parts(buf, size as usize));
    1
}

struct E {
    e: Box<MaybeUninit<u::yaml_emitter_t>>,
    out: Box<Vec<u8>>,
}
impl E {
    unsafe fn new(c: &Cfg) -> E {
        let mut e = E { e: Box::new(MaybeUninit::uninit()), out: Box::new(vec![]) };
        let p = e.e.as_mut_ptr();
        assert!(u::yaml_emitter_initialize(p).ok);
        u::yaml_emitter_set_output(p, wh, (&mut *e.out) as *mut Vec<u8> as *mut c_void);
        u::yaml_emitter_set_canonical(p, c.canonical);
        if let Some(i) = c.indent {
            u::yaml_emitter_set_indent(p, i);
        }
        if let Some(w) = c.width {
            u::yaml_emitter_set_width(p, w);
        }
        u::yaml_emitter_set_unicode(p, c.unicode);
        if let Some(b) = c.brk {
            u::yaml_emitter_set_break(
                p,
                match b {
                    0 => u::YAML_ANY_BREAK,
                    1 => u::YAML_CR_BREAK,
                    2 => u::YAML_LN_BREAK,
                    _ => u::YAML_CRLN_BREAK,
                },
            );
        }
        if c.enc != 0 {
            u::yaml_emitter_set_encoding(p, encc(c.enc));
        }
        e
    }
}
impl Drop for E {
    fn drop(&mut self) {
        unsafe { u::yaml_emitter_delete(self.e.as_mut_ptr()) }
    }
}
unsafe fn eerr(p: *const u::yaml_emitter_t) -> ErrM {
    let pr = &**p;
    let mut st = S { dirty: false };
    ErrM {
        kind: match pr.error {
            u::YAML_EMITTER_ERROR => K::Emitter,
            u::YAML_WRITER_ERROR => K::Io,
            _ => K::Memory,
        },
        problem: ostr(pr.problem.cast(), &mut st).unwrap_or_default(),
        context: None,
        pm: None,
        cm: None,
        text: String::new(),
    }
}

/// Change a setting of an emitter that may have started.
unsafe fn change(p: *mut u::yaml_emitter_t, what: u64, v: i64) {
    match what {
        0 => u::yaml_emitter_set_canonical(p, v != 0),
        1 => u::yaml_emitter_set_indent(p, v as i32),
        2 => u::yaml_emitter_set_width(p, v as i32),
        3 => u::yaml_emitter_set_unicode(p, v != 0),
        _ => u::yaml_emitter_set_break(
            p,
            match v {
                1 => u::YAML_CR_BREAK,
                2 => u::YAML_LN_BREAK,
                _ => u::YAML_CRLN_BREAK,
            },
        ),
    }
}
pub fn emit(evs: &[Ev], cfg: &Cfg) -> EmitOut {
    emit_changing(evs, cfg, &[])
}
/// Settings changed before the events named by the steps (event, setting, value).
pub fn emit_changing(evs: &[Ev], cfg: &Cfg, steps: &[u64]) -> EmitOut {
    unsafe {
        let mut e = E::new(cfg);
        let mut er = None;
        for (i, ev) in evs.iter().enumerate() {
            for c in steps.chunks_exact(3).filter(|c| c[0] == i as u64) {
                change(e.e.as_mut_ptr(), c[1], c[2] as i64);
            }
            let mut x = MaybeUninit::<u::yaml_event_t>::zeroed();
            if !make(ev, x.as_mut_ptr()) {
                er = Some((
                    i,
                    ErrM { kind: K::Memory, problem: "event".into(), context: None, pm: None, cm: None, text: String::new() },
                ));
                break;
            }
            if u::yaml_emitter_emit(e.e.as_mut_ptr(), x.as_mut_ptr()).fail {
                er = Some((i, eerr(e.e.as_ptr())));
                break;
            }
        }
        let bytes = std::mem::take(&mut *e.out);
        EmitOut { bytes, err: er }
    }
}

/// How many bytes have been written after each event; empty when an event is rejected.
pub fn emit_lens(evs: &[Ev], cfg: &Cfg) -> Vec<usize> {
    unsafe {
        let mut e = E::new(cfg);
        let mut v = vec![];
        for ev in evs {
            let mut x = MaybeUninit::<u::yaml_event_t>::zeroed();
            if !make(ev, x.as_mut_ptr()) || u::yaml_emitter_emit(e.e.as_mut_ptr(), x.as_mut_ptr()).fail {
                return vec![];
            }
            v.push(e.out.len());
        }
        v
    }
}

/// open / dump each / close, as the SUT helper does. Documents given as event-ordered models.
pub fn dump(docs: &[DocM], cfg: &Cfg) -> EmitOut {
    unsafe {
        let mut e = E::new(cfg);
        let mut er = None;
        'o: {
            if u::yaml_emitter_open(e.e.as_mut_ptr()).fail {
                er = Some((0, eerr(e.e.as_ptr())));
                break 'o;
            }
            for (i, d) in docs.iter().enumerate() {
                let mut cs = CS(vec![]);
                let mut x = MaybeUninit::<u::yaml_document_t>::zeroed();
                let x = x.as_mut_ptr();
                let mut v = MaybeUninit::<u::yaml_version_directive_t>::zeroed();
                let vp = match d.ver {
                    Some((a, b)) => {
                        (*v.as_mut_ptr()).major = a;
                        (*v.as_mut_ptr()).minor = b;
                        v.as_mut_ptr()
                    }
                    None => ptr::null_mut(),
                };
                let mut td: Vec<u::yaml_tag_directive_t> = vec![];
                for (h, p) in &d.tags {
                    let mut t = MaybeUninit::<u::yaml_tag_directive_t>::zeroed();
                    (*t.as_mut_ptr()).handle = cs.get(h);
                    (*t.as_mut_ptr()).prefix = cs.get(p);
                    td.push(t.assume_init());
                }
                let start = if td.is_empty() { ptr::null_mut() } else { td.as_mut_ptr() };
                let end = if td.is_empty() { ptr::null_mut() } else { td.as_mut_ptr().add(td.len()) };
                assert!(u::yaml_document_initialize(x, vp, start, end, d.si, d.ei).ok);
                for n in &d.nodes {
                    let tag = cs.opt(&n.tag);
                    match &n.k {
                        NodeK::Scalar(s, st) => {
                            let p = cs.get(s);
let _ =                             u::yaml_document_add_scalar(
                                x,
                                tag,
                                p,
                                s.len() as i32,
                                match st {
                                    0 => u::YAML_ANY_SCALAR_STYLE,
                                    1 => u::YAML_PLAIN_SCALAR_STYLE,
                                    2 => u::YAML_SINGLE_QUOTED_SCALAR_STYLE,
                                    3 => u::YAML_DOUBLE_QUOTED_SCALAR_STYLE,
                                    4 => u::YAML_LITERAL_SCALAR_STYLE,
                                    _ => u::YAML_FOLDED_SCALAR_STYLE,
                                },
                            );
                        }
                        NodeK::Seq(_, st) => {
let _ =                             u::yaml_document_add_sequence(
                                x,
                                tag,
                                match st {
                                    0 => u::YAML_ANY_SEQUENCE_STYLE,
                                    1 => u::YAML_BLOCK_SEQUENCE_STYLE,
                                    _ => u::YAML_FLOW_SEQUENCE_STYLE,
                                },
                            );
                        }
                        NodeK::Map(_, st) => {
let _ =                             u::yaml_document_add_mapping(
                                x,
                                tag,
                                match st {
                                    0 => u::YAML_ANY_MAPPING_STYLE,
                                    1 => u::YAML_BLOCK_MAPPING_STYLE,
                                    _ => u::YAML_FLOW_MAPPING_STYLE,
                                },
                            );
                        }
                        NodeK::No => {}
                    }
                }
                for (id, n) in d.nodes.iter().enumerate() {
                    match &n.k {
                        NodeK::Seq(v, _) => {
                            for it in v {
                                let _ = u::yaml_document_append_sequence_item(x, id as i32 + 1, *it);
                            }
                        }
                        NodeK::Map(v, _) => {
                            for (a, b) in v {
                                let _ = u::yaml_document_append_mapping_pair(x, id as i32 + 1, *a, *b);
                            }
                        }
                        _ => {}
                    }
                }
                if u::yaml_emitter_dump(e.e.as_mut_ptr(), x).fail {
                    er = Some((i + 1, eerr(e.e.as_ptr())));
                    break 'o;
                }
            }
            if u::yaml_emitter_close(e.e.as_mut_ptr()).fail {
                er = Some((docs.len() + 1, eerr(e.e.as_ptr())));
            }
        }
        let bytes = std::mem::take(&mut *e.out);
        EmitOut { bytes, err: er }
    }
}
