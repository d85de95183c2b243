//! Implementation-neutral traces: what the monitors compare.

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash, PartialOrd, Ord)]
pub struct Mk {
    pub i: u64,
    pub l: u64,
    pub c: u64,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ev {
    StreamStart(u8),
    StreamEnd,
    DocStart { ver: Option<(i32, i32)>, tags: Vec<(String, String)>, implicit: bool },
    DocEnd { implicit: bool },
    Alias(String),
    Scalar { anchor: Option<String>, tag: Option<String>, value: String, plain: bool, quoted: bool, style: u8 },
    SeqStart { anchor: Option<String>, tag: Option<String>, implicit: bool, style: u8 },
    SeqEnd,
    MapStart { anchor: Option<String>, tag: Option<String>, implicit: bool, style: u8 },
    MapEnd,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Tok {
    StreamStart(u8),
    StreamEnd,
    Version(i32, i32),
    TagDir(String, String),
    DocStart,
    DocEnd,
    BlockSeqStart,
    BlockMapStart,
    BlockEnd,
    FlowSeqStart,
    FlowSeqEnd,
    FlowMapStart,
    FlowMapEnd,
    BlockEntry,
    FlowEntry,
    Key,
    Value,
    Alias(String),
    Anchor(String),
    Tag(String, String),
    Scalar(String, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K {
    Reader,
    Scanner,
    Parser,
    Composer,
    Emitter,
    Io,
    Memory,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct ErrM {
    pub kind: K,
    pub problem: String,
    pub context: Option<String>,
    pub pm: Option<Mk>,
    pub cm: Option<Mk>,
    /// Full display text (implementation under test only).
    pub text: String,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct At<T> {
    pub v: T,
    pub s: Mk,
    pub e: Mk,
}

#[derive(Clone, Debug)]
pub struct Trace<T> {
    pub items: Vec<At<T>>,
    pub err: Option<ErrM>,
    /// A string was not valid UTF-8 or contained NUL where C truncates (reference only).
    pub dirty: bool,
    /// Iteration cap was hit.
    pub capped: bool,
}
impl<T> Trace<T> {
    pub fn new() -> Self {
        Trace { items: Vec::new(), err: None, dirty: false, capped: false }
    }
}
pub type EvTrace = Trace<Ev>;
pub type TokTrace = Trace<Tok>;

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum NodeK {
    No,
    Scalar(String, u8),
    Seq(Vec<i32>, u8),
    Map(Vec<(i32, i32)>, u8),
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct NodeM {
    pub k: NodeK,
    pub tag: Option<String>,
    pub s: Mk,
    pub e: Mk,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct DocM {
    pub nodes: Vec<NodeM>,
    pub ver: Option<(i32, i32)>,
    pub tags: Vec<(String, String)>,
    pub si: bool,
    pub ei: bool,
    pub s: Mk,
    pub e: Mk,
}
#[derive(Clone, Debug)]
pub struct LoadTrace {
    pub docs: Vec<DocM>,
    pub err: Option<ErrM>,
    pub dirty: bool,
    pub capped: bool,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Cfg {
    pub canonical: bool,
    pub indent: Option<i32>,
    pub width: Option<i32>,
    pub unicode: bool,
    pub brk: Option<u8>,
    pub enc: u8, // 0 = not set
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { canonical: false, indent: None, width: None, unicode: false, brk: None, enc: 0 }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct EmitOut {
    pub bytes: Vec<u8>,
    /// (index of the failing event, error)
    pub err: Option<(usize, ErrM)>,
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    // finalizer
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^= h >> 33;
    h
}
