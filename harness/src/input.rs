//! One test case: what a check ran on. Serialisable (replay files) and shrinkable.
use crate::model::*;
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq)]
pub struct Input {
    pub bytes: Vec<u8>,
    pub evs: Vec<Ev>,
    pub cfg: Cfg,
    /// Numeric program: chunk plans, call sequences, document-building operations, seeds.
    pub aux: Vec<u64>,
    pub label: String,
}
impl Input {
    pub fn new(label: &str) -> Input {
        Input { bytes: vec![], evs: vec![], cfg: Cfg::default(), aux: vec![], label: label.into() }
    }
    pub fn a(&self, i: usize) -> u64 {
        self.aux.get(i).copied().unwrap_or(0)
    }
    pub fn hash(&self) -> u64 {
        fnv(self.encode().as_bytes())
    }
    pub fn encode(&self) -> String {
        let mut s = String::new();
        s.push_str(&format!("label {}\n", self.label));
        s.push_str("bytes ");
        for b in &self.bytes {
            s.push_str(&format!("{b:02x}"));
        }
        s.push('\n');
        let c = &self.cfg;
        s.push_str(&format!(
            "cfg {} {} {} {} {} {}\n",
            c.canonical as u8,
            c.indent.map_or("-".into(), |v| v.to_string()),
            c.width.map_or("-".into(), |v| v.to_string()),
            c.unicode as u8,
            c.brk.map_or("-".into(), |v| v.to_string()),
            c.enc
        ));
        s.push_str("aux");
        for a in &self.aux {
            s.push_str(&format!(" {a}"));
        }
        s.push('\n');
        for e in &self.evs {
            s.push_str(&enc_ev(e));
            s.push('\n');
        }
        s
    }
    pub fn decode(text: &str) -> Option<Input> {
        let mut i = Input::new("");
        for l in text.lines() {
            if l.starts_with('#') || l.is_empty() {
                continue;
            }
            let mut w = l.split(' ');
            match w.next()? {
                "label" => i.label = l[6..].to_string(),
                "bytes" => {
                    let h = w.next().unwrap_or("").as_bytes();
                    i.bytes = h.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
                }
                "cfg" => {
                    let v: Vec<&str> = w.collect();
                    i.cfg = Cfg {
                        canonical: v[0] == "1",
                        indent: v[1].parse().ok(),
                        width: v[2].parse().ok(),
                        unicode: v[3] == "1",
                        brk: v[4].parse().ok(),
                        enc: v[5].parse().ok()?,
                    }
                }
                "aux" => i.aux = w.map(|x| x.parse().unwrap()).collect(),
                "ev" => i.evs.push(dec_ev(&l[3..])?),
                _ => return None,
            }
        }
        Some(i)
    }
}

fn es(s: &str) -> String {
    let mut o = String::from("=");
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() {
            o.push(b as char);
        } else {
            o.push_str(&format!("%{b:02x}"));
        }
    }
    o
}
fn eo(s: &Option<String>) -> String {
    s.as_ref().map_or("-".into(), |s| es(s))
}
fn ds(s: &str) -> Option<String> {
    let b = s.strip_prefix('=')?.as_bytes();
    let mut o = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            o.push(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).ok()?, 16).ok()?);
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(o).ok()
}
fn dopt(s: &str) -> Option<String> {
    if s == "-" {
        None
    } else {
        ds(s)
    }
}
fn enc_ev(e: &Ev) -> String {
    match e {
        Ev::StreamStart(x) => format!("ev SS {x}"),
        Ev::StreamEnd => "ev SE".into(),
        Ev::DocStart { ver, tags, implicit } => {
            let mut s = format!("ev DS {} {}", *implicit as u8, ver.map_or("-".into(), |v| format!("{}.{}", v.0, v.1)));
            for (h, p) in tags {
                s.push_str(&format!(" {} {}", es(h), es(p)));
            }
            s
        }
        Ev::DocEnd { implicit } => format!("ev DE {}", *implicit as u8),
        Ev::Alias(a) => format!("ev AL {}", es(a)),
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
            format!("ev SC {} {} {} {} {style} {}", eo(anchor), eo(tag), *plain as u8, *quoted as u8, es(value))
        }
        Ev::SeqStart { anchor, tag, implicit, style } => format!("ev QS {} {} {} {style}", eo(anchor), eo(tag), *implicit as u8),
        Ev::SeqEnd => "ev QE".into(),
        Ev::MapStart { anchor, tag, implicit, style } => format!("ev MS {} {} {} {style}", eo(anchor), eo(tag), *implicit as u8),
        Ev::MapEnd => "ev ME".into(),
    }
}
fn dec_ev(l: &str) -> Option<Ev> {
    let w: Vec<&str> = l.split(' ').collect();
    Some(match w[0] {
        "SS" => Ev::StreamStart(w[1].parse().ok()?),
        "SE" => Ev::StreamEnd,
        "DS" => Ev::DocStart {
            implicit: w[1] == "1",
            ver: w[2].split_once('.').map(|(a, b)| (a.parse().unwrap_or(1), b.parse().unwrap_or(1))),
            tags: w[3..].chunks(2).map(|c| (ds(c[0]).unwrap_or_default(), ds(c[1]).unwrap_or_default())).collect(),
        },
        "DE" => Ev::DocEnd { implicit: w[1] == "1" },
        "AL" => Ev::Alias(ds(w[1])?),
        "SC" => Ev::Scalar {
            anchor: dopt(w[1]),
            tag: dopt(w[2]),
            plain: w[3] == "1",
            quoted: w[4] == "1",
            style: w[5].parse().ok()?,
            value: ds(w[6])?,
        },
        "QS" => Ev::SeqStart { anchor: dopt(w[1]), tag: dopt(w[2]), implicit: w[3] == "1", style: w[4].parse().ok()? },
        "QE" => Ev::SeqEnd,
        "MS" => Ev::MapStart { anchor: dopt(w[1]), tag: dopt(w[2]), implicit: w[3] == "1", style: w[4].parse().ok()? },
        "ME" => Ev::MapEnd,
        _ => return None,
    })
}

/// Greedy delta debugging: `bad(candidate)` says whether the violation persists.
pub fn shrink(start: &Input, deadline: std::time::Instant, mut bad: impl FnMut(&Input) -> bool) -> Input {
    let mut cur = start.clone();
    let live = |d: std::time::Instant| std::time::Instant::now() < d;
    loop {
        let before = cur.clone();
        // events
        let mut n = cur.evs.len().max(1).next_power_of_two() / 2;
        while n >= 1 && live(deadline) {
            let mut i = 0;
            while i < cur.evs.len() && live(deadline) {
                let mut c = cur.clone();
                c.evs.drain(i..(i + n).min(cur.evs.len()));
                if bad(&c) {
                    cur = c;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        // event fields
        for i in 0..cur.evs.len() {
            for cand in simpler(&cur.evs[i]) {
                if !live(deadline) {
                    break;
                }
                let mut c = cur.clone();
                c.evs[i] = cand;
                if bad(&c) {
                    cur = c;
                }
            }
        }
        // bytes
        let mut n = cur.bytes.len().max(1).next_power_of_two() / 2;
        while n >= 1 && live(deadline) {
            let mut i = 0;
            while i < cur.bytes.len() && live(deadline) {
                let mut c = cur.clone();
                c.bytes.drain(i..(i + n).min(cur.bytes.len()));
                if bad(&c) {
                    cur = c;
                } else {
                    i += n;
                }
            }
            n /= 2;
        }
        for i in 0..cur.bytes.len().min(200) {
            if cur.bytes[i].is_ascii_alphanumeric() && cur.bytes[i] != b'a' && live(deadline) {
                let mut c = cur.clone();
                c.bytes[i] = b'a';
                if bad(&c) {
                    cur = c;
                }
            }
        }
        // configuration
        let d = Cfg::default();
        for k in 0..6 {
            let mut c = cur.clone();
            match k {
                0 => c.cfg.canonical = d.canonical,
                1 => c.cfg.indent = d.indent,
                2 => c.cfg.width = d.width,
                3 => c.cfg.unicode = d.unicode,
                4 => c.cfg.brk = d.brk,
                _ => c.cfg.enc = d.enc,
            }
            if c != cur && live(deadline) && bad(&c) {
                cur = c;
            }
        }
        // aux program
        let mut i = 0;
        while i < cur.aux.len() && live(deadline) {
            let mut c = cur.clone();
            c.aux.remove(i);
            if bad(&c) {
                cur = c;
            } else {
                i += 1;
            }
        }
        for i in 0..cur.aux.len() {
            for v in [0, 1, cur.aux[i] / 2] {
                if v < cur.aux[i] && live(deadline) {
                    let mut c = cur.clone();
                    c.aux[i] = v;
                    if bad(&c) {
                        cur = c;
                        break;
                    }
                }
            }
        }
        if cur == before || !live(deadline) {
            return cur;
        }
    }
}

fn simpler(e: &Ev) -> Vec<Ev> {
    let mut v = vec![];
    match e {
        Ev::Scalar { anchor, tag, value, plain, quoted, style } => {
            let mk = |anchor: &Option<String>, tag: &Option<String>, value: String, plain, quoted, style| Ev::Scalar {
                anchor: anchor.clone(),
                tag: tag.clone(),
                value,
                plain,
                quoted,
                style,
            };
            if anchor.is_some() {
                v.push(mk(&None, tag, value.clone(), *plain, *quoted, *style));
            }
            if tag.is_some() {
                v.push(mk(anchor, &None, value.clone(), true, true, *style));
            }
            if value.len() > 1 {
                v.push(mk(anchor, tag, "a".into(), *plain, *quoted, *style));
                let ch: Vec<char> = value.chars().collect();
                let mut n = ch.len() / 2;
                while n >= 1 {
                    for i in (0..ch.len()).step_by(n).take(60) {
                        let mut c = ch.clone();
                        c.drain(i..(i + n).min(ch.len()));
                        v.push(mk(anchor, tag, c.into_iter().collect(), *plain, *quoted, *style));
                    }
                    n /= 2;
                }
            }
            if *style != 0 {
                v.push(mk(anchor, tag, value.clone(), *plain, *quoted, 0));
            }
        }
        Ev::DocStart { ver, tags, implicit } => {
            if ver.is_some() {
                v.push(Ev::DocStart { ver: None, tags: tags.clone(), implicit: *implicit });
            }
            for i in 0..tags.len() {
                let mut t = tags.clone();
                t.remove(i);
                v.push(Ev::DocStart { ver: *ver, tags: t, implicit: *implicit });
            }
        }
        Ev::SeqStart { anchor, tag, style, .. } if anchor.is_some() || tag.is_some() || *style != 0 => {
            v.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: *style });
            v.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 0 });
        }
        Ev::MapStart { anchor, tag, style, .. } if anchor.is_some() || tag.is_some() || *style != 0 => {
            v.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: *style });
            v.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style: 0 });
        }
        _ => {}
    }
    v
}

/// The random stream for one case.
pub fn case_rng(seed: u64, id: &str, idx: u64) -> Rng {
    Rng::new(crate::rng::mix(seed ^ fnv(id.as_bytes())).wrapping_add(crate::rng::mix(idx.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x5151)))
}
