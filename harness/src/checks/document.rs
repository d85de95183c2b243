//! C18 dump and load, C19 the document-building interface.
use super::reading::check_doc;
use super::writing::*;
use crate::cmp::*;
use crate::gen_ev;
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;
use crate::rng::Rng;
use crate::runner::*;
use crate::sut;
use crate::tri;
use libyaml_safer as ys;
use std::collections::HashMap;

pub const STR: &str = "tag:yaml.org,2002:str";
pub const SEQ: &str = "tag:yaml.org,2002:seq";
pub const MAP: &str = "tag:yaml.org,2002:map";

/// The documents a program of operations describes. `pool` holds the values, tags and directives.
///
/// op % 10: 0..=2 add a scalar, 3 add a sequence, 4 add a mapping, 5 and 6 append an item,
/// 7 and 8 append a pair, 9 finish the document.
pub fn build_model(ops: &[u64], pool: &[Ev]) -> Vec<DocM> {
    let empty = || DocM { nodes: vec![], ver: None, tags: vec![], si: true, ei: true, s: Mk::default(), e: Mk::default() };
    let scalars: Vec<&Ev> = pool.iter().filter(|e| matches!(e, Ev::Scalar { .. })).collect();
    let heads: Vec<&Ev> = pool.iter().filter(|e| matches!(e, Ev::DocStart { .. })).collect();
    let mut docs = vec![];
    let mut d = empty();
    let pick = |x: u64, n: usize| (x % n as u64) as usize;
    let head = |d: &mut DocM, x: u64| {
        d.ei = x & 1 == 1;
        if !heads.is_empty() {
            if let Ev::DocStart { ver, tags, implicit } = heads[pick(x >> 1, heads.len())] {
                d.ver = *ver;
                d.tags = tags.clone();
                if x % 61 == 7 && !tags.is_empty() {
                    // Twice the same handle is refused.
                    d.tags.push((tags[0].0.clone(), if x & 64 == 0 { tags[0].1.clone() } else { "tag:other:".into() }));
                }
                d.si = *implicit;
            }
        }
    };
    let mut last = 0;
    for &op in ops {
        let x = op / 10;
        last = x;
        let node = |tag: &Option<String>, def: &str, k: NodeK| NodeM { k, tag: Some(tag.clone().unwrap_or(def.into())), s: Mk::default(), e: Mk::default() };
        let n = d.nodes.len();
        match op % 10 {
            0..=2 => {
                let (tag, value, style) = match scalars.get(pick(x, scalars.len().max(1))) {
                    Some(Ev::Scalar { tag, value, style, .. }) => (tag.clone(), value.clone(), *style),
                    _ => (None, format!("v{x}"), 0),
                };
                d.nodes.push(node(&tag, STR, NodeK::Scalar(value, style)));
            }
            k @ (3 | 4) => {
                let tag = match scalars.get(pick(x >> 3, scalars.len().max(1))) {
                    Some(Ev::Scalar { tag, .. }) if x & 4 == 4 => tag.clone(),
                    _ => None,
                };
                let style = (x % 3) as u8;
                d.nodes.push(if k == 3 { node(&tag, SEQ, NodeK::Seq(vec![], style)) } else { node(&tag, MAP, NodeK::Map(vec![], style)) });
            }
            k @ 5..=8 => {
                let want_seq = k < 7;
                let c: Vec<usize> = (0..n).filter(|i| if want_seq { matches!(d.nodes[*i].k, NodeK::Seq(..)) } else { matches!(d.nodes[*i].k, NodeK::Map(..)) }).collect();
                if c.is_empty() {
                    continue;
                }
                // Recent containers and recent nodes more often.
                let near = |y: u64, n: usize| if y & 1 == 0 { n - 1 - pick((y >> 1) & 0xff, n.min(4)) } else { pick(y >> 1, n) };
                let p = c[near(x & 0xfff, c.len())];
                let a = near((x >> 12) & 0xfff, n) as i32 + 1;
                let b = near((x >> 24) & 0xfff, n) as i32 + 1;
                match &mut d.nodes[p].k {
                    NodeK::Seq(v, _) => v.push(a),
                    NodeK::Map(v, _) => v.push((a, b)),
                    _ => {}
                }
            }
            _ => {
                head(&mut d, x);
                docs.push(std::mem::replace(&mut d, empty()));
            }
        }
    }
    if !d.nodes.is_empty() || docs.is_empty() {
        head(&mut d, last);
        docs.push(d);
    }
    docs
}

/// The same document through the public interface.
pub fn build(d: &DocM) -> ys::Document {
    let tags: Vec<_> = d.tags.iter().map(|t| sut::tag_directive(&t.0, &t.1)).collect();
    let mut x = ys::Document::new(d.ver.map(|v| sut::version(v.0, v.1)), &tags, d.si, d.ei);
    for n in &d.nodes {
        let t = n.tag.as_deref();
        let _ = match &n.k {
            NodeK::Scalar(v, s) => x.add_scalar(t.filter(|t| *t != STR), v, sut::style_to(*s)),
            NodeK::Seq(_, s) => x.add_sequence(t.filter(|t| *t != SEQ), sut::seqst_to(*s)),
            NodeK::Map(_, s) => x.add_mapping(t.filter(|t| *t != MAP), sut::mapst_to(*s)),
            NodeK::No => 0,
        };
    }
    for (k, n) in d.nodes.iter().enumerate() {
        let id = k as i32 + 1;
        match &n.k {
            NodeK::Seq(v, _) => v.iter().for_each(|i| x.append_sequence_item(id, *i)),
            NodeK::Map(v, _) => v.iter().for_each(|p| x.yaml_document_append_mapping_pair(id, p.0, p.1)),
            _ => {}
        }
    }
    x
}

enum Step {
    Node(i32),
    End(bool),
}
/// The events a document stands for: every node reachable from the root, once; nodes used more than
/// once have anchors, numbered in the order in which the second use is met.
pub fn doc_events(d: &DocM) -> Vec<Ev> {
    let mut v = vec![Ev::DocStart { ver: d.ver, tags: d.tags.clone(), implicit: d.si }];
    let mut uses: HashMap<i32, u32> = HashMap::new();
    let mut names: HashMap<i32, String> = HashMap::new();
    let kids = |id: i32| -> Vec<i32> {
        match &d.nodes[id as usize - 1].k {
            NodeK::Seq(v, _) => v.clone(),
            NodeK::Map(v, _) => v.iter().flat_map(|p| [p.0, p.1]).collect(),
            _ => vec![],
        }
    };
    let mut st = vec![1];
    while let Some(id) = st.pop() {
        let u = uses.entry(id).or_insert(0);
        *u += 1;
        if *u == 1 {
            st.extend(kids(id).into_iter().rev());
        } else if *u == 2 {
            let n = names.len() + 1;
            names.insert(id, format!("id{n:03}"));
        }
    }
    let mut seen = std::collections::HashSet::new();
    let mut st = vec![Step::Node(1)];
    while let Some(s) = st.pop() {
        match s {
            Step::End(true) => v.push(Ev::MapEnd),
            Step::End(false) => v.push(Ev::SeqEnd),
            Step::Node(id) => {
                let anchor = names.get(&id).cloned();
                if !seen.insert(id) {
                    v.push(Ev::Alias(anchor.unwrap()));
                    continue;
                }
                let n = &d.nodes[id as usize - 1];
                let tag = n.tag.clone();
                let is = |t: &str| tag.as_deref() == Some(t);
                match &n.k {
                    NodeK::Scalar(value, style) => v.push(Ev::Scalar { anchor, plain: is(STR), quoted: is(STR), tag, value: value.clone(), style: *style }),
                    NodeK::Seq(c, style) => {
                        v.push(Ev::SeqStart { anchor, implicit: is(SEQ), tag, style: *style });
                        st.push(Step::End(false));
                        st.extend(c.iter().rev().map(|i| Step::Node(*i)));
                    }
                    NodeK::Map(c, style) => {
                        v.push(Ev::MapStart { anchor, implicit: is(MAP), tag, style: *style });
                        st.push(Step::End(true));
                        for p in c.iter().rev() {
                            st.push(Step::Node(p.1));
                            st.push(Step::Node(p.0));
                        }
                    }
                    NodeK::No => {}
                }
            }
        }
    }
    v.push(Ev::DocEnd { implicit: d.ei });
    v
}

/// Same graph from the root: kinds, values, tags, order of children, and what is shared.
pub fn isomorphic(a: &DocM, b: &DocM) -> Result<u64, String> {
    if a.ver != b.ver {
        return Err(format!("version directive {:?} became {:?}", a.ver, b.ver));
    }
    if a.tags != b.tags {
        return Err(format!("tag directives {} became {}", short(&a.tags), short(&b.tags)));
    }
    if a.nodes.is_empty() || b.nodes.is_empty() {
        return if a.nodes.is_empty() == b.nodes.is_empty() { Ok(0) } else { Err("root lost".into()) };
    }
    let mut to: HashMap<i32, i32> = HashMap::new();
    let mut from: HashMap<i32, i32> = HashMap::new();
    let mut st = vec![(1, 1)];
    let mut shared = 0;
    while let Some((x, y)) = st.pop() {
        match (to.get(&x), from.get(&y)) {
            (None, None) => {}
            (Some(p), Some(q)) if *p == y && *q == x => {
                shared += 1;
                continue;
            }
            (p, _) => return Err(format!("node {x}: sharing changed ({} before)", if p.is_some() { "one node" } else { "two nodes" })),
        }
        to.insert(x, y);
        from.insert(y, x);
        let (p, q) = (&a.nodes[x as usize - 1], &b.nodes[y as usize - 1]);
        if p.tag != q.tag {
            return Err(format!("node {x}: tag {} became {}", short(&p.tag), short(&q.tag)));
        }
        match (&p.k, &q.k) {
            (NodeK::Scalar(v, _), NodeK::Scalar(w, _)) => {
                if v != w {
                    return Err(format!("node {x}: value {} became {}", short(v), short(w)));
                }
            }
            (NodeK::Seq(v, _), NodeK::Seq(w, _)) => {
                if v.len() != w.len() {
                    return Err(format!("node {x}: {} items became {}", v.len(), w.len()));
                }
                st.extend(v.iter().copied().zip(w.iter().copied()).rev());
            }
            (NodeK::Map(v, _), NodeK::Map(w, _)) => {
                if v.len() != w.len() {
                    return Err(format!("node {x}: {} pairs became {}", v.len(), w.len()));
                }
                for (s, t) in v.iter().zip(w).rev() {
                    st.push((s.1, t.1));
                    st.push((s.0, t.0));
                }
            }
            _ => return Err(format!("node {x}: kind changed: {} became {}", short(&p.k), short(&q.k))),
        }
    }
    if to.len() != b.nodes.len() {
        return Err(format!("{} nodes reachable, {} loaded", to.len(), b.nodes.len()));
    }
    Ok(shared)
}

/// Dump `docs` as the flags say; output and the outcome of every call.
fn dump(docs: &[ys::Document], cfg: &Cfg, flags: u64) -> Result<(Vec<u8>, Vec<Option<String>>), String> {
    let docs: Vec<ys::Document> = docs.to_vec();
    sut::guarded(|| {
        let mut out = vec![];
        let mut res = vec![];
        {
            let mut em = ys::Emitter::new();
            em.set_output(&mut out);
            sut::configure(&mut em, cfg);
            if flags & 1 == 1 || docs.is_empty() {
                res.push(em.open().err().map(|e| e.to_string()));
            }
            for d in docs {
                res.push(d.dump(&mut em).err().map(|e| e.to_string()));
                if flags & 8 == 8 {
                    let _ = em.flush();
                }
            }
            for _ in 0..1 + (flags >> 1) % 3 {
                res.push(em.close().err().map(|e| e.to_string()));
            }
        }
        (out, res)
    })
}

pub struct DumpLoad;
impl DumpLoad {
    fn compare(&self, docs: &[ys::Document], i: &Input, cx: &mut Ctx) -> V {
        let models: Vec<DocM> = docs.iter().map(sut::doc_model).collect();
        let (out, res) = tri!(dump(docs, &i.cfg, i.a(0)).map_err(|p| bad("panic while dumping", p)));
        // The same as emitting the documents' events. A document without nodes ends the stream.
        let mut evs = vec![Ev::StreamStart(0)];
        let mut ended = false;
        let mut emptied = false;
        for d in &models {
            if ended {
                emptied |= !d.nodes.is_empty();
                continue;
            }
            if d.nodes.is_empty() {
                evs.push(Ev::StreamEnd);
                ended = true;
            } else {
                evs.extend(doc_events(d));
            }
        }
        if !ended {
            evs.push(Ev::StreamEnd);
        }
        let want = tri!(sut::emit(&evs, &i.cfg).map_err(|p| bad("panic while emitting", p)));
        let first = res.iter().flatten().next();
        match (&want.err, first) {
            (Some((_, e)), Some(t)) if *t == e.text => {
                cx.count("dumps refused", 1);
                return V::Skip("the emitter rejects the document");
            }
            (Some((_, e)), r) => return bad("dumping reports another error than emitting the events", format!("{} vs {r:?}", e.text)),
            (None, Some(t)) if !emptied => return bad("dumping fails", t.clone()),
            (None, None) if emptied => return bad("a document after the end of the stream is not refused", ""),
            _ => {}
        }
        if emptied {
            return V::Skip("documents after the end of the stream");
        }
        if out != want.bytes {
            return bad("dumping a document differs from emitting its events", diff_bytes(&out, &want.bytes));
        }
        cx.count("bytes written", out.len() as u64);
        let back = tri!(sut::load(&out).map_err(|p| bad("panic while loading", p)));
        let live: Vec<&DocM> = models.iter().take_while(|d| !d.nodes.is_empty()).collect();
        let mut verdict = Ok(0);
        if let Some(e) = &back.err {
            verdict = Err(format!("the output does not load: {}", e.text));
        } else if back.docs.len() != live.len() {
            verdict = Err(format!("{} documents dumped, {} loaded", live.len(), back.docs.len()));
        } else {
            let mut shared = 0;
            for (k, (a, b)) in live.iter().zip(&back.docs).enumerate() {
                match isomorphic(a, b).and_then(|s| check_doc(b).map(|()| s)) {
                    Ok(s) => shared += s,
                    Err(m) => {
                        verdict = Err(format!("document #{k}: {m}"));
                        break;
                    }
                }
            }
            if verdict.is_ok() {
                verdict = Ok(shared);
            }
        }
        match verdict {
            Ok(shared) => {
                let n: usize = back.docs.iter().map(|d| d.nodes.len()).sum();
                cx.count("nodes compared", n as u64);
                cx.count("references to shared nodes", shared);
                cx.count("documents compared", back.docs.len() as u64);
                cx.shape(fnv(format!("{:?}", evs.iter().take(60).map(|e| std::mem::discriminant(e)).collect::<Vec<_>>()).as_bytes()) ^ shared);
                V::Ok(n > 1)
            }
            Err(m) => {
                // Some tags and values cannot be written so that they are read back; libyaml arbitrates.
                let exc = cx.reference(|| {
                    let mut c = i.cfg;
                    c.enc = 1;
                    let o = crate::refl::emit(&evs, &c);
                    let t = crate::refl::parse(&o.bytes, 0);
                    o.err.is_some() || same_content(&evs, &t).is_err() || t.items.iter().any(|x| matches!(&x.v, Ev::Scalar { tag: Some(t), .. } | Ev::SeqStart { tag: Some(t), .. } | Ev::MapStart { tag: Some(t), .. } if t == "!"))
                        || models.iter().flat_map(|d| &d.nodes).any(|n| n.tag.as_deref() == Some("!"))
                });
                if exc {
                    return V::Skip("libyaml does not preserve this either");
                }
                bad("a dumped document is not the one loaded back", format!("{m}\noutput {}", short(&String::from_utf8_lossy(&out))))
            }
        }
    }
}
fn gen_ops(r: &mut Rng, i: &mut Input, n: usize) {
    for _ in 0..r.range(1, 6) {
        let nice = r.chance(3, 4);
        let tag = if r.chance(1, 3) {
            Some(if nice { (*r.pick(&["!local", "tag:yaml.org,2002:int", STR, SEQ, MAP, "tag:example.com,2000:x", "!a/b", "tag:h0,2000:foo"])).to_string() } else { gen_ev::tag(r) })
        } else {
            None
        };
        let style = r.below(6) as u8;
        let value = gen_ev::value(r);
        i.evs.push(Ev::Scalar { anchor: None, tag, value, plain: false, quoted: false, style });
    }
    if r.chance(1, 3) {
        let s = gen_ev::stream(r, 5, true);
        i.evs.extend(s);
    }
    i.aux = vec![r.next() >> 40];
    let many = r.chance(1, 6);
    let mut fresh = true;
    for _ in 0..n {
        let k = if fresh && r.chance(7, 8) { 3 + r.below(2) as u64 } else if many && r.chance(1, 12) { 9 } else { r.below(9) as u64 };
        fresh = k == 9;
        i.aux.push((r.next() >> 20) * 10 + k);
    }
}
impl Check for DumpLoad {
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        "documents made by random programs of add and append operations (shared nodes, cycles, unreachable nodes, deep chains, several documents, directives, every style and tag class) or loaded from generated texts; dumped under random settings, compared with emitting their event sequence, loaded back and compared as graphs; non-trivial when two or more nodes were compared; distinct by program, text and settings"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_250_000, thorough: 16_000_000 }
    }
    fn settle(&self, i: &mut Input) {
        crate::vast::accept(i);
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = crate::vast::texts();
        for (k, n) in [10_000, 4100, 99_999, 66_000].into_iter().enumerate() {
            // Shared nodes, and a long sequence.
            let mut i = Input::new(if k < 2 { "shared" } else { "wide" });
            i.aux = vec![7 + k as u64, 13];
            i.aux.extend((0..n).map(|x| 10 * x));
            v.push(i);
        }
        v
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let cfg = gen_ev::cfg(r);
        let mut i;
        match r.below(12) {
            0 | 1 => {
                i = super::reading::gen_docs(r, t);
                i.aux = vec![r.next() >> 40];
            }
            2 if r.chance(1, 60) => {
                // A deep chain.
                i = Input::new("deep");
                let far = r.chance(1, 4);
                let n = if far { r.range(4000, 8000) } else { r.range(200, if t == Tier::Quick { 900 } else { 3000 }) };
                i.aux = vec![r.next() >> 40];
                let flow = if far { 1 } else { r.bool() as u64 };
                for k in 0..n {
                    let seq = r.bool();
                    i.aux.push((1 + flow) * 10 + if seq { 3 } else { 4 });
                    if k > 0 {
                        // Hang node k + 1 below node k.
                        i.label = "deep".into();
                    }
                }
                i.aux.push(0);
            }
            2 if r.chance(1, 50) => {
                // Many nodes that are referred to twice.
                i = Input::new("shared");
                let n = *r.pick(&[9, 10, 11, 99, 100, 101, 255, 256, 257, 998, 999, 1000, 1001, 1024, 1100]) + r.below(3) as usize;
                i.aux = vec![r.next() >> 40];
                i.aux.push((1 + r.bool() as u64) * 10 + 3);
                for _ in 0..n {
                    i.aux.push((1 + r.bool() as u64) * 10 + 3 + r.bool() as u64);
                }
                i.aux.push(0);
            }
            _ => {
                i = Input::new("program");
                let n = if r.chance(1, 30) { r.range(40, 200) } else { r.range(1, 24) };
                gen_ops(r, &mut i, n);
            }
        }
        i.cfg = cfg;
        if r.chance(1, 2) {
            i.cfg.canonical = false;
        }
        if i.label == "deep" && i.aux.len() > 4000 {
            // On one line, or the indentation would be most of the output.
            i.cfg.canonical = false;
            i.cfg.width = Some(-1);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if !i.bytes.is_empty() {
            let r = sut::guarded(|| {
                let mut p = ys::Parser::new();
                p.set_input(sut::ChunkReader::whole(&i.bytes));
                let mut v = vec![];
                loop {
                    match ys::Document::load(&mut p) {
                        Ok(d) if d.nodes.is_empty() => return Some(v),
                        Ok(d) => v.push(d),
                        Err(_) => return None,
                    }
                }
            });
            return match r {
                Err(p) => bad("panic while loading", p),
                Ok(None) => V::Skip("the text does not load"),
                Ok(Some(v)) => {
                    cx.count("documents from texts", v.len() as u64);
                    self.compare(&v, i, cx)
                }
            };
        }
        let ops = &i.aux[i.aux.len().min(1)..];
        let mut models = build_model(ops, &i.evs);
        if i.label == "deep" {
            let d = &mut models[0];
            let n = d.nodes.len();
            for k in 0..n.saturating_sub(1) {
                let kid = k as i32 + 2;
                let last = n as i32;
                match &mut d.nodes[k].k {
                    NodeK::Seq(v, _) => v.push(kid),
                    NodeK::Map(v, _) => v.push((last, kid)),
                    _ => {}
                }
            }
        }
        if i.label == "wide" {
            let d = &mut models[0];
            let n = d.nodes.len() as i32;
            if let Some(NodeK::Seq(v, _)) = d.nodes.first_mut().map(|n| &mut n.k) {
                v.extend((2..=n).chain(n - 2..=n));
            }
        }
        if i.label == "shared" {
            let d = &mut models[0];
            let n = d.nodes.len() as i32;
            if let Some(NodeK::Seq(v, _)) = d.nodes.first_mut().map(|n| &mut n.k) {
                v.extend((2..=n).chain(2..=n));
            }
        }
        let built = tri!(sut::guarded(|| models.iter().map(build).collect::<Vec<_>>()).map_err(|p| bad("panic while building", p)));
        for (a, b) in models.iter().zip(&built) {
            if *a != sut::doc_model(b) {
                return bad("the document built is not the one asked for", format!("{}\nvs {}", short(&sut::doc_model(b)), short(a)));
            }
        }
        self.compare(&built, i, cx)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("nodes compared", 1000), ("references to shared nodes", 100), ("documents from texts", 100)]
    }
    fn assumptions(&self) -> Vec<&'static str> {
        vec!["tags and values that libyaml itself does not read back as written have no verdict"]
    }
}

// ================================================================ C19
pub struct Builder;
impl Builder {
    /// A document with more nodes than sixteen bits can count.
    fn large(&self, cx: &mut Ctx) -> Result<(), String> {
        const N: i32 = 140_000;
        let mut d = ys::Document::new(None, &[], true, true);
        for k in 1..=N {
            let (got, what) = match k % 3 {
                1 => (d.add_sequence(None, ys::SequenceStyle::Any), "sequence"),
                2 => (d.add_mapping(None, ys::MappingStyle::Any), "mapping"),
                _ => (d.add_scalar(None, &k.to_string(), ys::ScalarStyle::Any), "scalar"),
            };
            if got != k {
                return Err(format!("node #{k}, a {what}, got the id {got}"));
            }
        }
        for k in (1..=N).step_by(3) {
            // Everything far away.
            let far = 1 + (k as i64 * 70_001 % N as i64) as i32;
            d.append_sequence_item(k, far);
            if k < N {
                d.yaml_document_append_mapping_pair(k + 1, far, N + 1 - far);
            }
        }
        for k in 1..=N {
            let far = |k: i32| 1 + (k as i64 * 70_001 % N as i64) as i32;
            let Some(n) = d.get_node(k) else { return Err(format!("node #{k} of {N} is not found")) };
            let ok = match &n.data {
                ys::NodeData::Sequence { items, .. } => k % 3 == 1 && *items == [far(k)],
                ys::NodeData::Mapping { pairs, .. } => k % 3 == 2 && pairs.len() == 1 && (pairs[0].key, pairs[0].value) == (far(k - 1), N + 1 - far(k - 1)),
                ys::NodeData::Scalar { value, .. } => k % 3 == 0 && *value == k.to_string(),
                _ => false,
            };
            if !ok {
                return Err(format!("node #{k} of {N} is {:?}", n.data));
            }
        }
        for k in [0, -1, N + 1, N + 65_536, i32::MIN, i32::MAX, 65_536 - N, -65_536] {
            if d.get_node(k).is_some() || d.get_node_mut(k).is_some() {
                return Err(format!("there is a node #{k} among {N}"));
            }
        }
        cx.count("nodes added", N as u64);
        Ok(())
    }
}
impl Check for Builder {
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        "random programs over up to four documents: add, append, look up by any id, change through a mutable reference, clone, and misuse (ids that no node has, containers of the wrong kind); after every call the whole document is compared with a model; non-trivial when at least two nodes exist; distinct by program"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 2_250_000, thorough: 30_000_000 }
    }
    fn gen(&self, r: &mut Rng, _: u64, _: Tier) -> Input {
        let mut i = Input::new("program");
        let n = if r.chance(1, 40) { r.range(30, 120) } else { r.range(1, 20) };
        for _ in 0..r.range(1, 4) {
            let style = r.below(6) as u8;
            let value = if r.chance(1, 4) { gen_ev::value(r) } else { crate::gen_yaml::word(r) };
            let tag = if r.bool() { Some(if r.chance(1, 8) { String::new() } else { gen_ev::tag(r) }) } else { None };
            let value = if r.chance(1, 20) { String::new() } else { value };
            i.evs.push(Ev::Scalar { anchor: None, tag, value, plain: r.bool(), quoted: r.bool(), style });
        }
        // Names that are nothing at all are names, too.
        for k in 0..r.below(3) {
            let some = |r: &mut Rng| *r.pick(&[None, Some(""), Some("x"), Some("!")]);
            let (anchor, tag) = (some(r).map(String::from), some(r).map(String::from));
            let style = r.below(3) as u8;
            i.evs.push(match k {
                0 => Ev::SeqStart { anchor, tag, implicit: r.bool(), style },
                _ => Ev::MapStart { anchor, tag, implicit: r.bool(), style },
            });
        }
        let s = gen_ev::stream(r, 4, false);
        i.evs.extend(s.into_iter().filter(|e| matches!(e, Ev::DocStart { .. })));
        for _ in 0..n {
            i.aux.push(r.next() >> 8);
        }
        i
    }
    fn once(&self, cx: &mut Ctx, _: Tier) -> Vec<(String, String)> {
        // The names users build documents with.
        let mut v = vec![];
        let y = "tag:yaml.org,2002:";
        for (name, tag, end) in [
            ("NULL_TAG", ys::NULL_TAG, "null"),
            ("BOOL_TAG", ys::BOOL_TAG, "bool"),
            ("STR_TAG", ys::STR_TAG, "str"),
            ("INT_TAG", ys::INT_TAG, "int"),
            ("FLOAT_TAG", ys::FLOAT_TAG, "float"),
            ("TIMESTAMP_TAG", ys::TIMESTAMP_TAG, "timestamp"),
            ("SEQ_TAG", ys::SEQ_TAG, "seq"),
            ("MAP_TAG", ys::MAP_TAG, "map"),
            ("DEFAULT_SCALAR_TAG", ys::DEFAULT_SCALAR_TAG, "str"),
            ("DEFAULT_SEQUENCE_TAG", ys::DEFAULT_SEQUENCE_TAG, "seq"),
            ("DEFAULT_MAPPING_TAG", ys::DEFAULT_MAPPING_TAG, "map"),
        ] {
            cx.count("constants", 1);
            if tag != format!("{y}{end}") {
                v.push((format!("{name} is {tag:?}"), String::new()));
            }
        }
        if ys::Encoding::default() != ys::Encoding::Any || ys::Break::default() != ys::Break::Any || ys::ScalarStyle::default() != ys::ScalarStyle::Any {
            v.push(("a default is not Any".into(), String::new()));
        }
        if let Err(m) = sut::guarded(|| self.large(cx)).unwrap_or_else(|p| Err(format!("panic in a large document: {p}"))) {
            v.push((m, String::new()));
        }
        v
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        let scalars: Vec<&Ev> = i.evs.iter().filter(|e| matches!(e, Ev::Scalar { .. })).collect();
        let heads: Vec<&Ev> = i.evs.iter().filter(|e| matches!(e, Ev::DocStart { .. })).collect();
        let fresh = |x: u64| -> (DocM, ys::Document) {
            let mut m = DocM { nodes: vec![], ver: None, tags: vec![], si: x & 1 == 1, ei: x & 2 == 2, s: Mk::default(), e: Mk::default() };
            if !heads.is_empty() {
                if let Ev::DocStart { ver, tags, .. } = heads[(x >> 2) as usize % heads.len()] {
                    m.ver = *ver;
                    m.tags = tags.clone();
                }
            }
            let t: Vec<_> = m.tags.iter().map(|t| sut::tag_directive(&t.0, &t.1)).collect();
            let d = ys::Document::new(m.ver.map(|v| sut::version(v.0, v.1)), &t, m.si, m.ei);
            (m, d)
        };
        // Events, too, are what they were made of, and belong to no place.
        for e in &i.evs {
            let y = sut::ev_to(e);
            if (sut::mk(y.start_mark), sut::mk(y.end_mark)) != (Mk::default(), Mk::default()) {
                return bad("an event that was made has a place", format!("{e:?}: {y:?}"));
            }
            let again = sut::ev_from(y.data);
            if again != *e {
                return bad("an event is not what it was made of", format!("{e:?} became {again:?}"));
            }
            cx.count("events made", 1);
        }
        let mut docs = vec![fresh(i.a(0))];
        let mut cur = 0;
        let mut most = 0;
        for (step, &x) in i.aux.iter().enumerate() {
            let op = x % 16;
            let x = x / 16;
            let n = docs[cur].0.nodes.len() as i32;
            // Ids: mostly real, sometimes not.
            let id = |y: u64| -> i32 {
                match y % 16 {
                    0 => 0,
                    1 => n + 1,
                    2 => -1,
                    3 => *[i32::MIN, i32::MAX, i32::MIN + 1, n + 2, -n, 1 << 16, n + 65536, 256 + n].get((y >> 4) as usize % 8).unwrap(),
                    _ if n == 0 => 1,
                    _ => 1 + ((y >> 4) % n as u64) as i32,
                }
            };
            let real = |k: i32| k >= 1 && k <= n;
            let fail = |m: &str, d: String| bad(m, format!("step {step}: {d}"));
            match op {
                0..=5 => {
                    let (tag, value, style, none) = match scalars.get(x as usize % scalars.len().max(1)) {
                        Some(Ev::Scalar { tag, value, style, plain, .. }) => (tag.clone(), value.clone(), *style, *plain),
                        _ => (None, "v".into(), 0, true),
                    };
                    let tag = if none { None } else { tag };
                    let style = (u64::from(style) + (x >> 16)) as u8 % 6;
                    let (m, d) = &mut docs[cur];
                    let (def, k, got) = match op {
                        0..=2 => (STR, NodeK::Scalar(value.clone(), style), d.add_scalar(tag.as_deref(), &value, sut::style_to(style))),
                        3 | 4 => (SEQ, NodeK::Seq(vec![], style % 3), d.add_sequence(tag.as_deref(), sut::seqst_to(style % 3))),
                        _ => (MAP, NodeK::Map(vec![], style % 3), d.add_mapping(tag.as_deref(), sut::mapst_to(style % 3))),
                    };
                    m.nodes.push(NodeM { k, tag: Some(tag.unwrap_or(def.into())), s: Mk::default(), e: Mk::default() });
                    if got != n + 1 {
                        return fail("a new node has another id than the next one", format!("{got}, expected {}", n + 1));
                    }
                    cx.count("nodes added", 1);
                }
                6..=9 => {
                    let (c, a, b) = (id(x & 0xffff), id((x >> 16) & 0xffff), id((x >> 32) & 0xffff));
                    // Mostly a container of the right kind.
                    let c = if x & 3 > 0 {
                        let seq = op < 8;
                        docs[cur].0.nodes.iter().rposition(|k| if seq { matches!(k.k, NodeK::Seq(..)) } else { matches!(k.k, NodeK::Map(..)) }).map_or(c, |p| p as i32 + 1)
                    } else {
                        c
                    };
                    let (m, d) = &mut docs[cur];
                    let ok = match (op < 8, m.nodes.get_mut((c as usize).wrapping_sub(1)).filter(|_| real(c)).map(|n| &mut n.k)) {
                        (true, Some(NodeK::Seq(v, _))) if real(a) => {
                            v.push(a);
                            true
                        }
                        (false, Some(NodeK::Map(v, _))) if real(a) && real(b) => {
                            v.push((a, b));
                            true
                        }
                        _ => false,
                    };
                    let r = sut::guarded(|| {
                        if op < 8 {
                            d.append_sequence_item(c, a)
                        } else {
                            d.yaml_document_append_mapping_pair(c, a, b)
                        }
                    });
                    if r.is_ok() != ok {
                        return fail("appending goes through exactly when it should not", format!("container {c}, {a}, {b}, {n} nodes: {r:?}"));
                    }
                    cx.count(if ok { "links appended" } else { "misuses refused" }, 1);
                }
                10..=12 => {
                    let k = id(x);
                    let (m, d) = &mut docs[cur];
                    let want = if real(k) { Some(m.nodes[k as usize - 1].clone()) } else { None };
                    let one = |n: Option<&ys::Node>| n.map(|n| node_model(n));
                    let got = tri!(sut::guarded(|| (one(d.get_node(k)), one(d.get_node_mut(k).map(|n| &*n)), one(d.get_root_node().map(|n| &*n)))).map_err(|p| fail("panic on looking up a node", format!("id {k} of {n}: {p}"))));
                    let root = m.nodes.first().cloned();
                    if got != (want.clone(), want, root) {
                        return fail("a node looked up is not the node with that id", format!("id {k} of {n}: {}", short(&got)));
                    }
                    cx.count("lookups", 1);
                }
                13 => {
                    // Change through a mutable reference.
                    let k = id(x);
                    let root = x & 0x100000 != 0;
                    let (m, d) = &mut docs[cur];
                    let node = if root { d.get_root_node() } else { d.get_node_mut(k) };
                    if let Some(nd) = node {
                        nd.tag = Some("changed".into());
                        let nk = if root { 0 } else { k as usize - 1 };
                        m.nodes[nk].tag = Some("changed".into());
                        if let (ys::NodeData::Scalar { value, .. }, NodeK::Scalar(v, _)) = (&mut nd.data, &mut m.nodes[nk].k) {
                            value.push('+');
                            v.push('+');
                        }
                        cx.count("nodes changed in place", 1);
                    }
                }
                14 => {
                    if docs.len() < 4 {
                        let c = docs[cur].clone();
                        docs.push(c);
                        cx.count("clones", 1);
                    }
                    cur = x as usize % docs.len();
                }
                _ => {
                    if docs.len() < 4 {
                        docs.push(fresh(x));
                    }
                    cur = x as usize % docs.len();
                }
            }
            for (k, (m, d)) in docs.iter().enumerate() {
                let g = sut::doc_model(d);
                if g != *m {
                    return fail("a document is not what the calls made of it", format!("document {k} after operation {op}\n{}\nexpected {}", short(&g), short(m)));
                }
            }
            most = most.max(docs[cur].0.nodes.len());
            cx.count("states compared", docs.len() as u64);
        }
        cx.shape(fnv(format!("{:?}", docs.iter().map(|d| d.0.nodes.iter().map(|n| std::mem::discriminant(&n.k)).collect::<Vec<_>>()).collect::<Vec<_>>()).as_bytes()));
        V::Ok(most >= 2)
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("states compared", 1000), ("misuses refused", 100), ("lookups", 100), ("clones", 10)]
    }
}
fn node_model(n: &ys::Node) -> NodeM {
    NodeM {
        k: match &n.data {
            ys::NodeData::NoNode => NodeK::No,
            ys::NodeData::Scalar { value, style } => NodeK::Scalar(value.clone(), sut::style_from(*style)),
            ys::NodeData::Sequence { items, style } => NodeK::Seq(items.clone(), sut::seqst_from(*style)),
            ys::NodeData::Mapping { pairs, style } => NodeK::Map(pairs.iter().map(|p| (p.key, p.value)).collect(), sut::mapst_from(*style)),
        },
        tag: n.tag.clone(),
        s: sut::mk(n.start_mark),
        e: sut::mk(n.end_mark),
    }
}

// ================================================================ C30
pub struct Mixed;
enum Piece {
    /// Events `from..to` are one whole document.
    Doc(usize, usize),
    /// The events from here on are cut off by an error.
    Cut(usize),
    End,
}
fn pieces(t: &EvTrace) -> Vec<Piece> {
    let mut v = vec![];
    let mut from = None;
    for (k, it) in t.items.iter().enumerate() {
        match &it.v {
            Ev::DocStart { .. } => from = Some(k),
            Ev::DocEnd { .. } => v.push(Piece::Doc(from.take().unwrap_or(k), k + 1)),
            Ev::StreamEnd => v.push(Piece::End),
            _ => {}
        }
    }
    if t.err.is_some() {
        v.push(Piece::Cut(from.unwrap_or(t.items.len())));
    }
    v
}
impl Mixed {
    fn read(&self, i: &Input, cx: &mut Ctx) -> V {
        let n = i.bytes.len();
        let enc = (i.a(0) % 4) as u8;
        let t = tri!(sut::parse_with(sut::ChunkReader::whole(&i.bytes), enc, n).map_err(|p| bad("panic", p)));
        if t.capped {
            return V::Skip("endless events (C01)");
        }
        let ps = pieces(&t);
        let choice = |k: usize| (i.a(1 + k % 8) >> (k / 8 % 32)) & 1 == 1;
        let mut by = [0u64; 2];
        let r = sut::guarded(|| -> Result<(), (&'static str, String)> {
            let mut p = ys::Parser::new();
            p.set_input(sut::ChunkReader::whole(&i.bytes));
            if enc != 0 {
                p.set_encoding(sut::enc_to(enc));
            }
            let mut turn = 0u64;
            let mut next = |p: &mut ys::Parser<sut::ChunkReader>| {
                turn += 1;
                if (i.a(9) >> (turn % 40)) & 1 == 1 {
                    p.next().unwrap_or_else(|| Ok(ys::Event::stream_end()))
                } else {
                    p.parse()
                }
            };
            let same_event = |e: ys::Result<ys::Event>, k: usize| -> Result<bool, (&'static str, String)> {
                match (e, t.items.get(k), &t.err) {
                    (Ok(e), Some(w), _) => {
                        let got = At { s: sut::mk(e.start_mark), e: sut::mk(e.end_mark), v: sut::ev_from(e.data) };
                        if got != *w {
                            return Err(("an event is different after a document was loaded", format!("event #{k}: {got:?}, expected {w:?}")));
                        }
                        Ok(true)
                    }
                    (Err(e), None, Some(w)) if sut::err(&e) == *w => Ok(false),
                    (e, w, x) => Err(("the events go on differently after a document was loaded", format!("event #{k}: {e:?}, expected {w:?} {x:?}"))),
                }
            };
            // The start of the stream may be taken, or left to the first load.
            let mut started = false;
            for (k, piece) in ps.iter().enumerate() {
                let load = choice(k);
                if !started && (!load || i.a(10) & 1 == 1) && !same_event(next(&mut p), 0)? {
                    return Ok(());
                }
                started = true;
                by[load as usize] += 1;
                let (from, to) = match piece {
                    Piece::Doc(a, b) => (*a, *b),
                    Piece::Cut(a) => (*a, t.items.len()),
                    Piece::End => (t.items.len() - 1, t.items.len()),
                };
                if !load {
                    for e in from..to {
                        same_event(next(&mut p), e)?;
                    }
                    if let Piece::Cut(_) = piece {
                        same_event(next(&mut p), to)?;
                    }
                    continue;
                }
                let part = EvTrace { items: t.items[from..to].to_vec(), err: None, ..EvTrace::new() };
                let (mut docs, cerr) = super::reading::compose(&part);
                let got = ys::Document::load(&mut p);
                let ended = |p: &mut ys::Parser<sut::ChunkReader>| -> Result<(), (&'static str, String)> {
                    match (p.parse(), ys::Document::load(p)) {
                        (Ok(e), Ok(d)) if e.data == ys::EventData::StreamEnd && d.nodes.is_empty() => Ok(()),
                        x => Err(("the stream goes on after an error", format!("{x:?}"))),
                    }
                };
                match (got, cerr, piece) {
                    (Err(e), Some((m, at)), _) => {
                        let e = sut::err(&e);
                        if e.kind != K::Composer || e.problem != m || e.pm != Some(at) {
                            return Err(("another composer error than that of this document", format!("{m} at {at:?}, got {}", e.text)));
                        }
                        return ended(&mut p);
                    }
                    (Err(e), None, Piece::Cut(_)) if t.err.as_ref() == Some(&sut::err(&e)) => return ended(&mut p),
                    (Ok(d), None, Piece::Doc(..)) => {
                        let w = docs.pop();
                        let g = sut::doc_model(&d);
                        if Some(&g) != w.as_ref() {
                            return Err(("a document is different after events were taken", format!("document #{k}: {}\nexpected {}", short(&g), short(&w))));
                        }
                    }
                    (Ok(d), None, Piece::End) if d.nodes.is_empty() => {}
                    (g, c, _) => return Err(("loading goes on differently after events were taken", format!("document #{k}: {}, expected {c:?}", short(&g)))),
                }
            }
            Ok(())
        });
        match r {
            Err(p) => return bad("panic", p),
            Ok(Err((m, d))) => return bad(m, d),
            Ok(Ok(())) => {}
        }
        cx.count("documents taken as events", by[0]);
        cx.count("documents loaded", by[1]);
        cx.shape(fnv(format!("{:?}{:?}", by, kinds(&t.items)).as_bytes()));
        V::Ok(by[0] > 0 && by[1] > 0)
    }
    fn write(&self, i: &Input, cx: &mut Ctx) -> V {
        let models = build_model(&i.aux[i.aux.len().min(11)..], &i.evs);
        let models: Vec<DocM> = models.into_iter().filter(|d| !d.nodes.is_empty()).collect();
        let built = tri!(sut::guarded(|| models.iter().map(build).collect::<Vec<_>>()).map_err(|p| bad("panic while building", p)));
        let choice = |k: usize| (i.a(1 + k % 8) >> (k / 8 % 32)) & 1 == 1;
        // Between them come documents that exist as events only.
        let mut own: Vec<Vec<Ev>> = vec![];
        for e in &i.evs[i.evs.iter().position(|e| matches!(e, Ev::StreamStart(_))).unwrap_or(i.evs.len())..] {
            match e {
                Ev::StreamStart(_) | Ev::StreamEnd => {}
                Ev::DocStart { .. } => own.push(vec![e.clone()]),
                e => {
                    if let Some(d) = own.last_mut() {
                        d.push(e.clone());
                    }
                }
            }
        }
        own.retain(|d| matches!(d.last(), Some(Ev::DocEnd { .. })));
        let mut own = own.into_iter();
        let mut evs = vec![Ev::StreamStart(0)];
        enum Do {
            Dump(usize),
            Emit(usize, usize),
        }
        let mut plan = vec![];
        for (k, m) in models.iter().enumerate() {
            let from = evs.len();
            evs.extend(doc_events(m));
            plan.push(if choice(k) { Do::Dump(k) } else { Do::Emit(from, evs.len()) });
            if (i.a(9) >> (k % 30)) & 1 == 1 {
                if let Some(d) = own.next() {
                    let from = evs.len();
                    evs.extend(d);
                    plan.push(Do::Emit(from, evs.len()));
                }
            }
        }
        evs.push(Ev::StreamEnd);
        let want = tri!(sut::emit(&evs, &i.cfg).map_err(|p| bad("panic while emitting", p)));
        let mut by = [0u64; 2];
        let r = sut::guarded(|| {
            let mut out = vec![];
            let mut err = None;
            {
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &i.cfg);
                let mut all = || -> ys::Result<()> {
                    // The first dump opens the stream, unless that was done before.
                    if i.a(10) & 1 == 1 || !matches!(plan.first(), Some(Do::Dump(_))) {
                        em.open()?;
                    }
                    for d in &plan {
                        match d {
                            Do::Dump(k) => {
                                by[1] += 1;
                                built[*k].clone().dump(&mut em)?
                            }
                            Do::Emit(a, b) => {
                                by[0] += 1;
                                for e in &evs[*a..*b] {
                                    em.emit(sut::ev_to(e))?;
                                }
                            }
                        }
                        if i.a(10) & 2 == 2 {
                            em.flush()?;
                        }
                    }
                    if i.a(10) & 4 == 4 {
                        em.close()
                    } else {
                        em.emit(ys::Event::stream_end())
                    }
                };
                if let Err(e) = all() {
                    err = Some(sut::err(&e));
                }
            }
            (out, err)
        });
        let (out, err) = tri!(r.map_err(|p| bad("panic while dumping", p)));
        match (&want.err, &err) {
            (Some((_, w)), Some(e)) if w.text == e.text => return V::Skip("the emitter rejects the documents"),
            (None, None) => {}
            (w, e) => return bad("documents dumped among events are refused unlike their events", format!("{} vs {}", short(e), short(w))),
        }
        if out != want.bytes {
            return bad("documents dumped among events are written differently", diff_bytes(&out, &want.bytes));
        }
        // A stream begun by an event is not open: the dump begins it again, which is refused, and everything after that.
        if i.a(10) & 24 == 24 && !built.is_empty() {
            let r = sut::guarded(|| {
                let mut out = vec![];
                let mut em = ys::Emitter::new();
                em.set_output(&mut out);
                sut::configure(&mut em, &i.cfg);
                let begun = em.emit(ys::Event::stream_start(ys::Encoding::Utf8)).is_ok();
                let dumped = built[0].clone().dump(&mut em).err().map(|e| sut::err(&e));
                let after = em.emit(ys::Event::document_start(None, &[], true)).is_ok() || built[0].clone().dump(&mut em).is_ok();
                (begun, dumped, after)
            });
            let (begun, dumped, after) = tri!(r.map_err(|p| bad("panic after a stream begun by an event", p)));
            match dumped {
                Some(e) if begun && !after && e.kind == K::Emitter && e.problem == "expected DOCUMENT-START or STREAM-END" => cx.count("dumps refused", 1),
                d => return bad("a dump on a stream begun by an event", format!("begun {begun}, then {d:?}, goes on {after}")),
            }
        }
        cx.count("documents written as events", by[0]);
        cx.count("documents dumped", by[1]);
        cx.count("bytes written", out.len() as u64);
        cx.shape(fnv(&out));
        V::Ok(by[0] > 0 && by[1] > 0)
    }
}
fn kinds(t: &[At<Ev>]) -> Vec<std::mem::Discriminant<Ev>> {
    t.iter().take(60).map(|i| std::mem::discriminant(&i.v)).collect()
}
impl Check for Mixed {
    fn id(&self) -> &'static str {
        "C30"
    }
    fn rule(&self) -> &'static str {
        "streams of several documents, each taken as events or loaded, in a random order, and compared with the events of the undisturbed parser and an independent composition of them; streams written by dumping some documents and emitting the events of others, compared with emitting all events; non-trivial when both ways were used in one stream; distinct by input and choices"
    }
    fn plan(&self) -> Plan {
        Plan { quick: 1_000_000, thorough: 12_000_000 }
    }
    fn fixed(&self) -> Vec<Input> {
        let mut v = crate::vast::texts();
        for (k, i) in v.iter_mut().enumerate() {
            let mut r = Rng::new(k as u64);
            i.aux = vec![0];
            i.aux.extend((0..10).map(|_| r.next()));
        }
        v
    }
    fn gen(&self, r: &mut Rng, _: u64, t: Tier) -> Input {
        let mut head = vec![if r.chance(5, 6) { 0 } else { r.below(4) as u64 }];
        let lean = r.below(3);
        head.extend((0..8).map(|_| match lean {
            0 => r.next(),
            1 => r.next() | r.next(),
            _ => r.next() & r.next(),
        }));
        head.extend([r.next(), r.next()]);
        let mut i;
        if r.bool() {
            i = super::reading::gen_docs(r, t);
            let join = r.range(0, 3);
            for _ in 0..join {
                // More documents, so that there is something to alternate.
                i.bytes.extend_from_slice(r.pick(&[&b"\n---\n"[..], b"\n...\n", b"\n--- \n", b"\n...\n%YAML 1.1\n---\n", b"\n...\n%TAG !e! tag:e,2000:\n---\n"]));
                let more = if r.bool() { super::reading::gen_docs(r, t).bytes } else { gen_yaml::structured(r, 8).into_bytes() };
                i.bytes.extend_from_slice(&more);
            }
            i.aux = head;
        } else {
            i = Input::new("writing");
            let n = r.range(4, 40);
            gen_ops(r, &mut i, n);
            let nice = r.chance(4, 5);
            let s = gen_ev::stream(r, 6, nice);
            i.evs.extend(s);
            let mut ops: Vec<u64> = i.aux.split_off(1);
            for k in 0..ops.len() {
                if r.chance(1, 6) {
                    ops[k] = ops[k] / 10 * 10 + 9;
                }
            }
            i.aux = head;
            i.aux.extend(ops);
            i.cfg = gen_ev::cfg(r);
        }
        i
    }
    fn run(&self, i: &Input, cx: &mut Ctx) -> V {
        if i.label == "writing" {
            self.write(i, cx)
        } else {
            self.read(i, cx)
        }
    }
    fn counter_floor(&self) -> Vec<(&'static str, u64)> {
        vec![("documents taken as events", 500), ("documents loaded", 500), ("documents written as events", 500), ("documents dumped", 500)]
    }
}
