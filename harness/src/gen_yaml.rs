//! Input generators for the reading side.
use crate::corpus::SEEDS;
use crate::rng::Rng;

pub const FRAGS: &[&str] = &[
    "- ", "-", "? ", "?", ": ", ":", ",", ", ", "[", "]", "{", "}", "&a ", "&b ", "*a", "*b ", "*a ", "!!str ", "!t ", "!", "! ", "!<x> ", "!e!f ",
    "!%41 ", "!%c3%a9 ", "|", ">", "|\n", ">\n", "|+\n", ">-\n", "|2\n", ">1-\n", "|-2\n", "'", "''", "\"", "\"\"", "\\", "\\n", "\\x41", "\\u00e9", "\\U0001F600", "\\\n", "#", " #c", " # c\n",
    "%YAML 1.1\n", "%YAML 1.2\n", "%TAG ! tag:x,2000:\n", "%TAG !e! tag:e,2000:\n", "%FOO bar\n", "%", "---", "---\n", "--- ", "...", "...\n", "\n", "\n", "\n ", "\n  ", "\n    ", "\n\n", "\r\n", "\r", "\t", " ", " ", "  ", "    ",
    "a", "b", "c", "key", "val", "a b", "1", "0x1F", "é", "漢", "😀", "\u{a0}", "\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "a: ", "b: ", "- a\n", "a: b\n", "[a, b]", "{a: b}", "\"x\"", "'y'", "<<", "=", "~", "@", "`", "-a", "?b", ":c", "a#b", "a:b", "--", "..", "%a", "\u{ff01}", "\u{e000}", "\u{fffd}", "\u{d7ff}",
];

pub const CHARS: &[char] = &[
    'a', 'b', 'c', 'z', 'A', 'Z', '0', '1', '9', '_', '-', '.', '/', ' ', ' ', '\t', '!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', ':', ';', '<', '=', '>', '?', '@', '[', '\\', ']', '^', '`', '{', '|', '}', '~', '\u{7e}', '\u{85}', '\u{a0}', '\u{a1}', 'é', 'ÿ', '\u{100}', '\u{7ff}', '\u{800}', '\u{2027}', '\u{2028}', '\u{2029}', '\u{202a}', '漢', '緿', '\u{7eff}', '\u{d7ff}', '\u{e000}', '\u{efff}', '\u{f000}', '\u{fefe}', '\u{feff}', '\u{ff00}', '\u{ff01}', '\u{fffd}', '\u{10000}', '😀', '\u{1f389}', '\u{10ffff}', '\n', '\r',
];

/// Lengths around the limits in the code under test.
pub fn edge_len(r: &mut Rng) -> usize {
    match r.below(14) {
        0..=7 => r.below(12),
        8 => r.range(12, 60),
        9 => r.range(60, 100),
        10 => r.range(118, 136),
        11 => r.range(250, 260),
        12 => r.range(1015, 1035),
        _ => r.range(60, 400),
    }
}

/// A number of repetitions of something `unit` bytes long: mostly small, around round numbers, up to ~65536.
pub fn count(r: &mut Rng, unit: usize) -> usize {
    let limit = match r.below(2000) {
        0 => 400_000,
        1..=5 => 70_000,
        6..=45 => 12_000,
        50..=300 => 3_000,
        _ => 300,
    } / unit.max(1);
    let t: Vec<usize> = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 20, 24, 32, 40, 48, 50, 64, 80, 100, 128, 200, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096, 8192, 10_000, 16_384, 32_768, 65_536, 100_000, 131_072, 200_000]
        .into_iter()
        .filter(|t| *t <= limit.max(2))
        .collect();
    // The larger ones more often.
    let k = r.below(t.len()).max(r.below(t.len()));
    (t[k] + r.below(4)).saturating_sub(1).max(1)
}

/// Head, repeated unit, tail; `^` in the unit is replaced by the number of the repetition.
const SIZED: &[(&str, &str, &str)] = &[
    ("", "--- a^\n...\n", ""),
    ("", "---\na^: [b, c]\n", ""),
    ("", "%TAG !e! tag:e^:\n--- !e!x [a]\n...\n", "%TAG !f! x\n--- !e!x a\n"),
    ("", "%TAG !e^! tag:e^:\n", "--- [!e1!a b, !e0!a, !e7!c d, !e15!x y]\n"),
    ("%YAML 1.1\n", "%TAG !e^! tag:\n", "%TAG !e1! tag:\n--- a\n"),
    ("", "%FOO bar ^\n", "--- a\n"),
    ("", "--- [&a^ b, *a^]\n...\n", "--- *a1\n"),
    ("", "---\n", ""),
    ("--- a\n", "...\n", "b\n"),
    ("", "- item ^\n", ""),
    ("", "- - a^\n  - b: c\n", ""),
    ("", "key^: value\n", "x: [y]\n"),
    ("", "? - a^\n: - b\n", ""),
    ("", "? a^\n", ": b\n"),
    ("", "- &a^ b\n", "- [*a1, *a0, *a9, *zz]\n"),
    ("- &x a\n", "- *x\n", "- *y\n"),
    ("", "- !t^ b\n", ""),
    ("[", "a^, ", "]: b\n"),
    ("[", "a^,\n", "]\n"),
    ("{", "k^: v, ", "}\n"),
    ("{", "k^, ", "a: b}\n"),
    ("[", "[a^], ", "b]\n"),
    ("[", "a^: b,\n ", "]\n"),
    ("a: {", "? b, ", "c}\nd: e\n"),
    ("- a\n", " # comment\n", "- b\n"),
    ("- a\n#", "comment ", "\n- b\n"),
    ("- a #", "é", "\n- b\n"),
    ("- 'a'\n", "\n", "- b\n"),
    ("- 'a'\n", "  \n", "- b: c\n  d: e\n"),
    ("- 'a'", " ", "\n- b\n"),
    ("-", " ", "b\n"),
    ("-", " ", "b: c\n"),
    ("a:", " ", "'b' # c\nd: e\n"),
    ("a", " ", ": b\n"),
    ("? a\n", " ", ": b\n"),
    ("", " ", "- a\n"),
    ("", " ", "a: b\nc: d\n"),
    ("", "\n", "--- a\n"),
    ("", "#\n", "%YAML 1.1\n--- a\n"),
    ("- ", "word ", "end\n- b\n"),
    ("- ", "w", ": end\n- b\n"),
    ("'", "w", "': end\nb: c\n"),
    ("- ", "word\n  ", "end\n- b\n"),
    ("- word", "\n", "  end\n- b\n"),
    ("- word", "\n  \t", "  end\n- b\n"),
    ("- '", "word''s ", "'\n- b\n"),
    ("- '", "'' ", "\n'\n- b\n"),
    ("- 'a", "\n", " b'\n- b\n"),
    ("- 'a", " ", "\n\n b'\n- b\n"),
    ("- \"", "w\\x41", "\"\n- b\n"),
    ("- \"", "\\u00e9", "\": c\n"),
    ("- \"", "word\\\n  x", "\"\n- b\n"),
    ("- \"a", "\n\n", "  b\\\n  c\"\n- b\n"),
    ("- \"a\\\n", " ", "b\"\n- b\n"),
    ("- |\n", "  text\n", "- b\n"),
    ("- |\n  ", "word ", "\n- b\n"),
    ("- >\n", "  text\n", "- b\n"),
    ("- >\n  a\n", "\n", "  b\n- c\n"),
    ("- >-\n  a\n", "\n", "- c\n"),
    ("- >+\n  a\n", "\n", "- c\n"),
    ("- >\n", "  a\n\n   b\n", "- b\n"),
    ("- |+\n  a\n", "\n", "- b\n"),
    ("- |+\n", "\n", "- b\n"),
    ("- |\n  a\n", "   \n", "- b\n"),
    ("- |\n", " ", "a\n- b\n"),
    ("- |\n", " ", "\n  a\n- b\n"),
    ("- |1\n", " ", "a\n- b\n"),
    ("- |", " ", "# c\n  a\n- b\n"),
    ("- | #", "c", "\n  a\n- b\n"),
    ("- |\n", "  é漢😀\n", "- b\n"),
    ("- &", "a", " x\n"),
    ("- &", "ab", " x\n- *abab\n"),
    ("- !", "a", " x\n"),
    ("- !", "%C3%A9", " x\n"),
    ("- !<", "x", "> x\n"),
    ("- !h", "h", "!a x\n"),
    ("%TAG !e! ", "abc", "\n--- !e!x y\n"),
    ("%TAG !", "e", "! a\n--- !e!x y\n"),
    ("%", "F", " a\n--- y\n"),
    ("%YAML", " ", "1.1\n--- y\n"),
    ("%TAG ! ", " ", "a: # c\n--- !y\n"),
    ("---", " ", "a\n"),
    ("--- a\n...", " ", "# b\n"),
    ("- a", " ", "\n- b\n"),
    ("- a\n", "\n", "- b\n"),
    ("", "- ", "a\n"),
    ("", "- ", "a: b\n- c\n"),
    ("", "? ", "a\n"),
    ("", "? - ", "a\n"),
    ("[", "[", "a\n"),
    ("", "{a: ", "b"),
    ("", "- !t &a^ ", "a\n"),
];

/// A name that differs a little from another one.
pub fn near_name(r: &mut Rng, a: &str) -> String {
    let mut v: Vec<char> = a.chars().collect();
    let k = r.below(v.len().max(1));
    match r.below(5) {
        0 | 1 => v.iter_mut().for_each(|c| *c = if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }),
        2 if v.len() > 1 => {
            v.pop();
        }
        3 if k < v.len() => v[k] = if v[k] == '-' { '_' } else { '-' },
        _ => v.push(*r.pick(&['0', 'a', '-', '_'])),
    }
    v.into_iter().collect()
}

/// A construct of chosen size, in some surroundings.
pub fn sized(r: &mut Rng) -> String {
    let mut s = String::new();
    if r.chance(1, 6) {
        // Nested to some depth, one way and back.
        let unit = r.range(2, 6);
        let n = count(r, unit).min(2050);
        let kinds: Vec<(&str, &str)> = if r.bool() {
            vec![*r.pick(&[("[", "]"), ("{a: ", "}"), ("[{", "}]"), ("{[", "]: b}"), ("{? ", "}"), ("[a: ", "]")])]
        } else {
            (0..r.range(2, 4)).map(|_| *r.pick(&[("[", "]"), ("{a: ", "}"), ("{", "}"), ("{", ": b}"), ("[a, ", "]"), ("[", ", b]"), ("[? ", "]")])).collect()
        };
        s.push_str(*r.pick(&["", "- ", "a: ", "? ", "--- "]));
        for k in 0..n {
            s.push_str(kinds[k % kinds.len()].0);
        }
        s.push_str(*r.pick(&["", "a", "'a'", "a: b"]));
        for k in (0..n).rev() {
            s.push_str(kinds[k % kinds.len()].1);
        }
        s.push_str(*r.pick(&["\n", "", ": b\n", "\na: b\n", "\n- b\n"]));
        return s;
    }
    if r.chance(1, 8) {
        // Indented step by step.
        let step = r.range(1, 4);
        let n = count(r, 2 * step).min(if r.chance(1, 50) { 400 } else { 40 });
        let (open, after) = *r.pick(&[("a:\n", "b: c\n"), ("-\n", "- b\n"), ("?\n", ": b\n"), ("a: !t\n", "b: c\n"), ("- &a\n", "- b\n")]);
        for k in 0..n {
            s.push_str(&" ".repeat(k * step));
            s.push_str(open);
        }
        s.push_str(&" ".repeat(n * step));
        s.push_str(*r.pick(&["a\n", "|\n", "a:\n", "- a\n", "'a'\n"]));
        for k in (0..n).rev() {
            if r.chance(1, if n > 20 { 10 } else { 3 }) {
                s.push_str(&" ".repeat(k * step));
                s.push_str(after);
            }
        }
        return s;
    }
    let (head, unit, tail) = *r.pick(SIZED);
    // The cost of nesting grows with its square, as in libyaml.
    let nests = unit.contains(['[', '{']) && !unit.contains([']', '}']) || unit.ends_with("- ") && !unit.contains('\n') || unit == "? ";
    let n = count(r, unit.len()).min(if nests { 2050 } else { usize::MAX });
    if r.chance(1, 10) {
        s.push_str(*r.pick(&["--- z\n...\n", "# c\n", "\u{feff}", "--- z\n--- \n", "\n", "é: 'x'\n"]));
    }
    s.push_str(head);
    for k in 0..n {
        if unit.contains('^') {
            s.push_str(&unit.replace('^', &k.to_string()));
        } else {
            s.push_str(unit);
        }
    }
    s.push_str(tail);
    s
}

pub fn word(r: &mut Rng) -> String {
    const W: &[&str] = &["a", "b", "key", "value", "foo", "bar", "x1", "two", "three", "é", "漢字", "null", "true", "12", "-5", "0.5", "a.b", "http://x/y", "a-b", "a_b", "~", "=", "<<", "no"];
    let mut s = (*r.pick(W)).to_string();
    if r.chance(1, 40) {
        let n = edge_len(r);
        let c = *r.pick(&['a', 'é', '漢', '😀']);
        while s.chars().count() < n {
            s.push(c);
        }
    }
    s
}
fn brk(r: &mut Rng, style: u8) -> &'static str {
    match style {
        0 => "\n",
        1 => "\r\n",
        2 => "\r",
        _ => *r.pick(&["\n", "\n", "\r\n", "\r", "\u{85}", "\u{2028}", "\u{2029}"]),
    }
}

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub out: String,
    brk: u8,
    anchors: Vec<String>,
    handles: Vec<String>,
    budget: i32,
    pub next_anchor: usize,
    dup: bool,
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, budget: i32) -> Gen<'a> {
        let brk = if r.chance(3, 4) { 0 } else { r.below(4) as u8 };
        let dup = r.chance(1, 4);
        Gen { r, out: String::new(), brk, anchors: vec![], handles: vec![], budget, next_anchor: 0, dup }
    }
    fn nl(&mut self) {
        let b = brk(self.r, self.brk);
        self.out.push_str(b);
    }
    fn maybe_comment(&mut self) {
        if self.r.chance(1, 12) {
            self.out.push_str(" # c");
            if self.r.chance(1, 3) {
                let w = word(self.r);
                self.out.push_str(&w);
            }
        }
        if self.r.chance(1, 20) {
            self.out.push_str(*self.r.pick(&[" ", "\t", "  "]));
        }
    }
    fn eol(&mut self) {
        self.maybe_comment();
        self.nl();
        if self.r.chance(1, 15) {
            self.nl();
        }
        if self.r.chance(1, 30) {
            self.out.push_str("# line comment");
            self.nl();
        }
    }
    fn ind(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
    }
    fn props(&mut self) {
        if self.r.chance(1, 10) {
            let t = self.tag();
            self.out.push_str(&t);
            self.out.push(' ');
        }
        if self.r.chance(1, 8) {
            let a = if self.dup && !self.anchors.is_empty() && self.r.chance(1, 3) {
                self.r.pick(&self.anchors).clone()
            } else {
                self.next_anchor += 1;
                let mut a = format!("{}{}", self.r.pick(&["a", "id", "A-", "_x", "9"]), self.next_anchor);
                if !self.anchors.is_empty() && self.r.chance(1, 4) {
                    // Nearly one that is there.
                    let b = self.r.pick(&self.anchors).clone();
                    let b = near_name(self.r, &b);
                    if self.dup || !self.anchors.contains(&b) {
                        a = b;
                    }
                }
                if self.r.chance(1, 30) {
                    let n = edge_len(self.r);
                    a.push_str(&"n".repeat(n));
                }
                a
            };
            self.out.push('&');
            self.out.push_str(&a);
            self.out.push(' ');
            self.anchors.push(a);
        }
        if self.r.chance(1, 60) {
            let t = self.tag();
            self.out.push_str(&t);
            self.out.push(' ');
        }
    }
    fn tag(&mut self) -> String {
        match self.r.below(9) {
            0 => "!!str".into(),
            1 => "!!map".into(),
            2 => "!local".into(),
            3 => "!".into(),
            4 if self.r.bool() => format!("!<{}>", crate::gen_ev::near_tag(self.r)),
            4 => "!<tag:example.com,2000:x>".into(),
            5 => format!("!!{}", word(self.r)),
            6 => "!a%20b%C3%A9".into(),
            7 => "!<!x%21>".into(),
            _ => {
                if self.handles.is_empty() {
                    "!!seq".into()
                } else {
                    let h = self.r.pick(&self.handles).clone();
                    format!("{h}{}", self.r.pick(&["foo", "x/y", "q%2F", ""]))
                }
            }
        }
    }
    fn alias(&mut self) -> bool {
        if !self.anchors.is_empty() && self.r.chance(1, 8) {
            let a = self.r.pick(&self.anchors).clone();
            self.out.push('*');
            self.out.push_str(&a);
            return true;
        }
        false
    }
    fn dq(&mut self) -> String {
        let mut s = String::from("\"");
        let n = self.r.size(10);
        for _ in 0..n {
            match self.r.below(12) {
                0 => s.push_str(*self.r.pick(&["\\n", "\\t", "\\\\", "\\\"", "\\/", "\\0", "\\a", "\\b", "\\e", "\\f", "\\v", "\\r", "\\ ", "\\_", "\\N", "\\L", "\\P", "\\\t", "\\'"])),
                1 => s.push_str(&format!("\\x{:02x}", self.r.below(256))),
                2 => s.push_str(&format!("\\u{:04X}", self.r.below(65536))),
                3 => s.push_str(&format!("\\U{:08x}", self.r.below(0x110010))),
                4 => s.push(*self.r.pick(CHARS)),
                _ => s.push_str(&word(self.r)),
            }
            if self.r.chance(1, 5) {
                s.push(' ');
            }
        }
        s.push('"');
        s.replace(['\n', '\r'], " ")
    }
    fn sq(&mut self) -> String {
        let mut s = String::from("'");
        let n = self.r.size(8);
        for _ in 0..n {
            match self.r.below(6) {
                0 => s.push_str("''"),
                1 => {
                    let c = *self.r.pick(CHARS);
                    if c != '\'' && c != '\n' && c != '\r' {
                        s.push(c)
                    }
                }
                _ => s.push_str(&word(self.r)),
            }
            if self.r.chance(1, 4) {
                s.push(' ');
            }
        }
        s.push('\'');
        s
    }
    fn multiline(&mut self, s: &str, indent: usize, escapes: bool) {
        // Fold the text over lines at its spaces, or anywhere by an escaped break.
        let mut odd = false;
        for (k, ch) in s.chars().enumerate() {
            if escapes && k > 0 && !odd && self.r.chance(1, 12) {
                self.out.push('\\');
                self.nl();
                self.ind(indent);
            }
            odd = ch == '\\' && !odd;
            if ch == ' ' && self.r.chance(1, 4) {
                if self.r.chance(1, 5) {
                    self.out.push_str(*self.r.pick(&[" ", "\t"]));
                }
                self.nl();
                if self.r.chance(1, 5) {
                    let n = self.r.below(3);
                    for _ in 0..n {
                        if self.r.chance(1, 4) {
                            let k = self.r.below(indent + 2);
                            self.ind(k);
                        }
                        self.nl();
                    }
                }
                let extra = if self.r.chance(1, 5) { self.r.below(4) } else { 0 };
                self.ind(indent + extra);
                if self.r.chance(1, 20) {
                    self.out.push('\t');
                }
            } else {
                self.out.push(ch);
            }
        }
    }
    fn plain(&mut self) -> String {
        let mut s = word(self.r);
        while self.r.chance(1, 3) {
            s.push(' ');
            s.push_str(&word(self.r));
        }
        s
    }
    fn scalar(&mut self, indent: usize, flow: bool, key: bool) {
        let (s, q) = match self.r.below(6) {
            0 => (self.dq(), true),
            1 => (self.sq(), true),
            2 if !flow && !key => {
                self.block_scalar(indent);
                return;
            }
            3 if self.r.chance(1, 6) => (String::new(), false),
            _ => (self.plain(), false),
        };
        let _ = q;
        if key || self.r.chance(2, 3) {
            self.out.push_str(&s);
        } else {
            self.multiline(&s, indent, s.starts_with('"'));
        }
    }
    fn block_scalar(&mut self, indent: usize) {
        self.out.push(*self.r.pick(&['|', '>']));
        let hint = self.r.chance(1, 5);
        let add = self.r.range(1, 4);
        let chomp = *self.r.pick(&["", "", "-", "+"]);
        if hint && self.r.bool() {
            self.out.push_str(&add.to_string());
            self.out.push_str(chomp);
        } else if hint {
            self.out.push_str(chomp);
            self.out.push_str(&add.to_string());
        } else {
            self.out.push_str(chomp);
        }
        self.maybe_comment();
        self.nl();
        // `indent` is parent indent + something; content indent relative to parent is unknown, be generous.
        let base = indent + add;
        let n = self.r.size(6);
        for _ in 0..n {
            match self.r.below(8) {
                0 => {}
                1 => {
                    let k = self.r.below(base + 2);
                    self.ind(k);
                }
                2 => {
                    let k = base + self.r.below(4);
                    self.ind(k);
                    let w = self.plain();
                    self.out.push_str(&w);
                }
                3 => {
                    self.ind(base);
                    self.out.push_str(*self.r.pick(&["\tx", "# not comment", "- x", "a: b", "--- x", "%x", "x ", "x\t", "😀é"]));
                }
                _ => {
                    self.ind(base);
                    let w = self.plain();
                    self.out.push_str(&w);
                }
            }
            self.nl();
        }
    }
    pub fn flow(&mut self, depth: usize, indent: usize) {
        self.budget -= 1;
        if self.alias() {
            self.out.push(' ');
            return;
        }
        self.props();
        if depth == 0 || self.budget <= 0 || self.r.chance(1, 2) {
            self.scalar(indent, true, false);
            return;
        }
        let map = self.r.bool();
        self.out.push(if map { '{' } else { '[' });
        let n = self.r.size(5);
        for i in 0..n {
            self.fsp(indent);
            if map {
                if self.r.chance(1, 8) {
                    self.out.push_str("? ");
                }
                match self.r.below(8) {
                    0 => self.flow(depth - 1, indent),
                    _ => {
                        if !self.alias() {
                            self.props();
                            self.scalar(indent, true, true)
                        } else {
                            self.out.push(' ')
                        }
                    }
                }
                if self.r.chance(7, 8) {
                    self.out.push_str(*self.r.pick(&[": ", ": ", ": ", " : ", ":"]));
                    if self.r.chance(7, 8) {
                        self.flow(depth - 1, indent);
                    }
                }
            } else {
                self.flow(depth - 1, indent);
                if self.r.chance(1, 8) {
                    self.out.push_str(": ");
                    self.flow(depth - 1, indent);
                }
            }
            self.fsp(indent);
            if i + 1 < n || self.r.chance(1, 6) {
                self.out.push(',');
            }
        }
        self.fsp(indent);
        self.out.push(if map { '}' } else { ']' });
    }
    fn fsp(&mut self, indent: usize) {
        match self.r.below(10) {
            0 => self.out.push(' '),
            1 => {
                self.nl();
                self.ind(indent)
            }
            2 if self.r.chance(1, 4) => {
                self.out.push_str(" # c");
                self.nl();
                self.ind(indent)
            }
            _ => {}
        }
    }
    /// A block node, written after something like "- " or "key:"; ends with a line break.
    pub fn block(&mut self, depth: usize, indent: usize, inline: bool) {
        self.budget -= 1;
        if depth == 0 || self.budget <= 0 || self.r.chance(2, 5) {
            if inline && !self.out.is_empty() {
                self.out.push(' ');
            }
            if !self.alias() {
                self.props();
                if self.r.chance(1, 5) {
                    self.flow(3, indent + 1);
                } else {
                    self.scalar(indent + 1, false, false);
                }
            }
            self.eol();
            return;
        }
        let seq = self.r.bool();
        let compact = inline && self.r.chance(1, 4);
        if !compact {
            if inline {
                self.out.push(' ');
                self.props();
                self.eol();
            }
        }
        let step = self.r.range(1, 4);
        let col = if compact { indent + 2 } else { indent + if seq && self.r.chance(1, 5) { 0 } else { step } };
        let n = 1 + self.r.size(4);
        for i in 0..n {
            if !(compact && i == 0) {
                self.ind(col);
            } else {
                self.out.push(' ');
            }
            if seq {
                self.out.push('-');
                self.block(depth - 1, col, true);
            } else {
                if self.r.chance(1, 8) {
                    self.out.push('?');
                    self.block(depth - 1, col, true);
                    if self.r.chance(3, 4) {
                        self.ind(col);
                        self.out.push(':');
                        self.block(depth - 1, col, true);
                    }
                    continue;
                }
                if !self.alias() {
                    self.props();
                    if self.r.chance(1, 12) {
                        self.flow(1, col);
                    } else {
                        self.scalar(col, false, true);
                    }
                } else {
                    self.out.push(' ');
                }
                self.out.push_str(*self.r.pick(&[":", ":", ":", " :", "  :"]));
                self.block(depth - 1, col, true);
            }
        }
    }
    pub fn document(&mut self, first: bool) {
        self.handles.clear();
        self.anchors.clear();
        let mut dir = false;
        if self.r.chance(1, 6) {
            if !first || self.r.chance(1, 6) {
                self.out.push_str("...");
                self.nl();
            }
            if self.r.bool() {
                self.out.push_str(*self.r.pick(&["%YAML 1.1", "%YAML 1.2", "%YAML 1.1 # c", "%YAML 1.3", "%YAML  1.1"]));
                self.nl();
                dir = true;
            }
            let n = if self.r.chance(1, 20) { self.r.range(5, 40) } else { self.r.below(3) };
            for i in 0..n {
                let h = match self.r.below(5) {
                    0 => "!".to_string(),
                    1 => "!!".to_string(),
                    2 => (*self.r.pick(&["!e!", "!E!", "!ee!", "!0!", "!e-_!"])).to_string(),
                    _ => format!("!h{i}!"),
                };
                if self.handles.contains(&h) && self.r.chance(9, 10) {
                    continue;
                }
                let line = format!("%TAG {h} {}", self.r.pick(&["tag:x,2000:", "!p-", "tag:%41/", "x:y"]));
                self.out.push_str(&line);
                self.nl();
                self.handles.push(h);
                dir = true;
            }
        }
        if dir || !first || self.r.chance(1, 4) {
            self.out.push_str("---");
            match self.r.below(4) {
                0 => {
                    self.out.push(' ');
                    self.props();
                    self.flow(3, 1);
                    self.eol();
                }
                1 => {
                    self.block(0, 0, true);
                }
                _ => {
                    self.eol();
                    let d = self.r.below(5);
                    self.root(d);
                }
            }
        } else {
            let d = self.r.below(6);
            self.root(d);
        }
        if self.r.chance(1, 8) {
            self.out.push_str("...");
            self.eol();
        }
    }
    fn root(&mut self, d: usize) {
        if d == 0 {
            self.flow(4, 1);
            self.eol();
        } else {
            // block collection at column 0
            let save = self.out.len();
            let _ = save;
            let seq = self.r.bool();
            let n = 1 + self.r.size(6);
            for _ in 0..n {
                if seq {
                    self.out.push('-');
                } else {
                    if !self.alias() {
                        self.props();
                        self.scalar(0, false, true);
                    } else {
                        self.out.push(' ');
                    }
                    self.out.push(':');
                }
                self.block(d, 0, true);
            }
        }
    }
}

pub fn structured(r: &mut Rng, budget: i32) -> String {
    let docs = if r.chance(1, 5) { r.range(2, 5) } else { 1 };
    let mut g = Gen::new(r, budget);
    for i in 0..docs {
        g.document(i == 0);
    }
    g.out
}

pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    let mut s = String::new();
    // A few vocab subsets make interesting collisions likelier.
    let sub: Vec<&str> = (0..r.range(3, 14)).map(|_| *r.pick(FRAGS)).collect();
    let all = r.chance(1, 3);
    for _ in 0..n {
        s.push_str(if all { *r.pick(FRAGS) } else { *r.pick(&sub) });
    }
    s
}

pub fn charsoup(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| *r.pick(CHARS)).collect()
}

fn floor(s: &str, mut i: usize) -> usize {
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut s = s.to_string();
    for _ in 0..1 + r.below(4) {
        let len = s.len();
        let p = floor(&s, r.below(len + 1));
        let q = floor(&s, (p + r.size(12)).min(len));
        match r.below(8) {
            0 => s.replace_range(p..q, ""),
            1 => {
                let f = *r.pick(FRAGS);
                s.insert_str(p, f)
            }
            2 => {
                let seg = s[p..q].to_string();
                let at = floor(&s, r.below(len + 1));
                s.insert_str(at, &seg);
            }
            3 => s.insert(p, *r.pick(CHARS)),
            4 => {
                let f = *r.pick(FRAGS);
                s.replace_range(p..q, f)
            }
            5 => s.truncate(p),
            6 => {
                let o = *r.pick(SEEDS);
                let a = floor(o, r.below(o.len() + 1));
                let b = floor(o, (a + r.size(30)).min(o.len()));
                let b = b.max(a);
                s.insert_str(p, &o[a..b]);
            }
            _ => {
                let n = r.range(1, 3);
                s.insert_str(p, &" ".repeat(n))
            }
        }
    }
    s
}
/// Two or three mistakes close together.
pub fn mistakes(r: &mut Rng) -> String {
    // Two mistakes close together, a few levels down: which is found first?
    let mut t = String::from(*r.pick(&["", "", "--- ", "%TAG !e! tag:e,2000:\n---\n", "x\n--- ", "%YAML 1.1\n---\n", "%TAG !e! %ff\n", "%TAG !e! x%c3%41 y\n--- ", "%TAG !e! %80 # c\n", "%TAG !e x\n", "%TAG !e! x y\n--- "]));
    let mut close = String::new();
    let mut ind = 0;
    for k in 0..r.below(5) {
        match r.below(if close.is_empty() { 5 } else { 2 }) {
            0 => {
                t.push_str(*r.pick(&["[", "[a, ", "[a: ", "[&a b, "]));
                close.insert(0, ']');
            }
            1 => {
                t.push_str(*r.pick(&["{", "{a: ", "{? ", "{a: b, "]));
                close.insert(0, '}');
            }
            2 => t.push_str("- "),
            3 => t.push_str("? "),
            _ => {
                if k > 0 {
                    ind += 2;
                    t.push('\n');
                    t.push_str(&" ".repeat(ind));
                }
                t.push_str(*r.pick(&["k:", "k: ", "&n k: ", "'k': "]));
            }
        }
        if t.ends_with(':') {
            ind += 1;
            t.push('\n');
            t.push_str(&" ".repeat(ind));
        }
    }
    const WRONG: &[&str] = &[
        "!u!x", "!u!x &a", "&a !u!x", "!e!", "*n", "*none", "&a b, &a c", "@", "`", "%", "\"\\q\"", "\"\\x4\"", "'open", "\"open", "!<a", "!<>", "!", "&", "*", "&a*", "*a:", "[", "{", "]", "}", ",", "- b", "? b", ": b", "|x",
        ">0", "| x", "#c", "\t- a", "\ta: b", "---", "...", "--- ]", "\u{1}", "\u{feff}", "%YAML 1.1", "%TAG ! !", "%YAML 3.0", "%FOO bar", "a: b: c", "&a &b c", "!a !b c", "*a b", "b\nc: d", "'a' b", "[a] b", "!e!%zz", "!e!%ff", "!<%4>", "\"\\uD800\"", "\"\\UFFFFFFFF\"",
    ];
    for k in 0..r.range(2, 3) {
        if k > 0 {
            t.push_str(*r.pick(&[" ", " ", "", ", ", ": ", "\n", "\n ", "  ", " x ", " # c\n", "\n---\n", "\n...\n", "] ", "} "]));
        }
        t.push_str(*r.pick(WRONG));
    }
    if r.chance(2, 3) {
        t.push_str(*r.pick(&["", " ", "\n"]));
        t.push_str(&close);
        t.push_str(*r.pick(&["", "\n", "\n- x\n", ": y\n", "\n&a b\n"]));
    }
    t
}

/// Inputs that put a specific feature near a specific limit.
pub fn boundary(r: &mut Rng) -> String {
    let fill = *r.pick(&["a", "é", "漢", "😀"]);
    match r.below(28) {
        27 => mistakes(r),
        25 => {
            // Flow collections nested as (parts of) a key, to some depth.
            let n = *r.pick(&[2, 3, 5, 7, 8, 9, 10, 12, 16, 17, 20, 31, 33, 64, 65]);
            let mut open = String::new();
            let mut close = String::new();
            for _ in 0..n {
                match r.below(8) {
                    0..=3 => {
                        open.push_str("[");
                        close.insert(0, ']');
                    }
                    4 => {
                        open.push_str("{a: ");
                        close.insert(0, '}');
                    }
                    5 => {
                        open.push_str("[x, ");
                        close.insert(0, ']');
                    }
                    6 => {
                        open.push_str("{");
                        close.insert_str(0, ": y}");
                    }
                    _ => {
                        open.push_str("[");
                        close.insert_str(0, ", &b c]");
                    }
                }
            }
            let inner = *r.pick(&["a", "", "a: b", "*x", "'q'", "a\n"]);
            let tail = *r.pick(&[": v\n", " : v\n", ":\n  - v\n", "\n", "\n: v\n", ": {k: v}\nb: c\n"]);
            let head = *r.pick(&["", "? ", "- ", "a: b\n", "&x ", "!t "]);
            format!("{head}{open}{inner}{close}{tail}")
        }
        0 => {
            // simple key length limit (1024 characters)
            let n = r.range(1015, 1032);
            let key = fill.repeat(n);
            match r.below(6) {
                0 => format!("{key}: v\n"),
                1 => format!("{{{key}: v}}\n"),
                2 => format!("\"{key}\": v\nb: c\n"),
                3 => format!("a:\n  '{key}' : v\n"),
                4 => format!("[{key}: v, b]\n"),
                _ => format!("? {key}\n: v\n"),
            }
        }
        1 => {
            // possible key spanning lines
            let n = r.range(0, 4);
            format!("[a{}b: c]\n", "\n ".repeat(n))
        }
        2 => {
            let n = r.range(1, 12);
            let digits: String = (0..n).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
            if r.bool() {
                format!("%YAML {digits}.1\n--- a\n")
            } else {
                format!("%YAML 1.{digits}\n--- a\n")
            }
        }
        3 => {
            // push a construct across the 16K raw/decoded buffer
            let f = *r.pick(FRAGS);
            let target = 16384 * r.range(1, 3) - r.below(8);
            let mut s = String::new();
            match r.below(3) {
                0 => {
                    s.push_str("# ");
                    while s.len() + fill.len() < target {
                        s.push_str(fill);
                    }
                    s.push('\n');
                }
                1 => {
                    s.push_str("- \"");
                    while s.len() + fill.len() < target {
                        s.push_str(fill);
                    }
                    s.push_str("\"\n- ");
                }
                _ => {
                    while s.len() + 4 < target {
                        s.push_str("- a\n");
                    }
                    while s.len() < target {
                        s.push('\n');
                    }
                }
            }
            s.push_str(f);
            s.push_str(*r.pick(SEEDS));
            s
        }
        4 => {
            let d = if r.chance(1, 10) { r.range(200, 1200) } else { r.range(10, 200) };
            let o = *r.pick(&["[", "{", "[{", "- ", "? ", "{a: ", "[a: ", "? - "]);
            let mut s = o.repeat(d);
            if r.bool() {
                s.push_str("x");
                if o.starts_with('[') || o.starts_with('{') {
                    for c in o.chars().collect::<Vec<_>>().repeat(d).iter().rev() {
                        match c {
                            '[' => s.push(']'),
                            '{' => s.push('}'),
                            _ => {}
                        }
                    }
                }
            }
            s.push('\n');
            s
        }
        5 => {
            let d = r.range(5, 120);
            let step = r.range(1, 9);
            let mut s = String::new();
            for i in 0..d {
                s.push_str(&" ".repeat(i * step));
                s.push_str(*r.pick(&["a:\n", "-\n", "b:\n"]));
            }
            s.push_str(&" ".repeat(d * step));
            s.push_str("x\n");
            let back = r.below(d * step + 1);
            s.push_str(&" ".repeat(back));
            s.push_str("y: z\n");
            s
        }
        6 => {
            // many anchors / aliases
            let n = if r.chance(1, 4) { r.range(100, 1500) } else { r.range(2, 100) };
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("- &k{i} v{i}\n"));
            }
            for _ in 0..r.below(20) {
                let over = if r.chance(1, 50) { 2 } else { 0 };
                let k = r.below(n + over);
                s.push_str(&format!("- *k{k}\n"));
            }
            s
        }
        7 => {
            // many documents
            let n = r.range(2, 60);
            let mut s = String::new();
            for i in 0..n {
                match r.below(5) {
                    0 => s.push_str("---\n"),
                    1 => s.push_str(&format!("--- {i}\n...\n")),
                    2 => s.push_str(&format!("---\na: &x {i}\nb: *x\n")),
                    3 => s.push_str("...\n%TAG !e! tag:e:\n--- !e!x y\n"),
                    _ => s.push_str("--- |\n text\n"),
                }
            }
            s
        }
        8 => {
            // long scalars, every style
            let n = r.range(100, 3000);
            let w = ["word ", "é ", "x", "a\n\n  ", "漢字 "];
            let p = *r.pick(&w);
            let body = p.repeat(n / p.len() + 1);
            match r.below(5) {
                0 => format!("'{body}'\n"),
                1 => format!("\"{body}\"\n"),
                2 => format!("k: |\n  {}\n", body.replace('\n', "\n  ")),
                3 => format!("k: >\n  {}\n", body.replace('\n', "\n  ")),
                _ => format!("k:\n  {body}\n"),
            }
        }
        9 => {
            let n = r.range(1, 300);
            let m = r.below(3);
            let b = *r.pick(&["\n", "\r\n", "\r", "\u{85}", "\u{2028}"]);
            let t = b.repeat(n);
            match m {
                0 => format!("'a{t}b'\n"),
                1 => format!("|+\n a{t}\n"),
                _ => format!("a{t} b\n"),
            }
        }
        10 => {
            let n = edge_len(r) + 1;
            let a: String = (0..n).map(|_| *r.pick(&['a', '9', '_', '-', 'Z'])).collect();
            format!("- &{a} x\n- *{a}\n- &{a}\n  - *{a}\n")
        }
        11 => {
            let n = edge_len(r) + 1;
            let a = "t".repeat(n);
            match r.below(4) {
                0 => format!("!{a} x\n"),
                1 => format!("!<{a}> x\n"),
                2 => format!("%TAG !{a}! tag:{a}\n--- !{a}!{a} x\n"),
                _ => format!("!!{a} x\n"),
            }
        }
        12 => {
            // all uri characters in tags, exhaustive-ish
            let c = char::from_u32(r.range(0x21, 0x7e) as u32).unwrap();
            match r.below(6) {
                0 => format!("!{c} x\n"),
                1 => format!("!a{c}b x\n"),
                2 => format!("!<a{c}b> x\n"),
                3 => format!("%TAG !e! a{c}b\n--- !e!z x\n"),
                4 => format!("[!a{c}b x]\n"),
                _ => format!("!a!b{c} x\n"),
            }
        }
        13 => {
            // percent escapes
            let ch = *r.pick(CHARS);
            let mut b = [0; 4];
            let esc: String = ch.encode_utf8(&mut b).bytes().map(|x| format!("%{x:02X}")).collect();
            let cut = if r.chance(1, 5) { r.below(esc.len() + 1) } else { esc.len() };
            let mut esc = esc[..cut].to_string();
            if r.chance(1, 3) {
                // An octet too many, or another one.
                let at = 3 * r.below(esc.len() / 3 + 1);
                let mut end = at;
                if r.chance(1, 2) {
                    end = (at + 3).min(esc.len());
                }
                let o: u8 = *r.pick(&[0x80, 0xbf, 0xff, 0xfe, 0xf8, 0xc3, 0xe2, 0xf0, 0x41, 0x7f, 0xc2]);
                esc.replace_range(at..end, &format!("%{o:02x}"));
            }
            let cut = esc.len();
            match r.below(4) {
                0 => format!("!x{} y\n", &esc[..cut]),
                1 => format!("!<{}> y\n", &esc[..cut]),
                2 => format!("%TAG !e! x{}\n--- !e!z y\n", &esc[..cut]),
                _ => format!("!!{} y\n", &esc[..cut]),
            }
        }
        14 => {
            // escapes in double quotes, exhaustive over the escape letter
            let c = *r.pick(&["0", "a", "b", "t", "\t", "n", "v", "f", "r", "e", " ", "\"", "/", "\\", "N", "_", "L", "P", "x", "u", "U", "'", "c", "1", "A", "\n", "\r\n", "é", "]", ""]);
            let n = r.below(10);
            let hex: String = (0..n).map(|_| char::from(*r.pick(b"0123456789abcdefABCDEFgG"))).collect();
            format!("\"x\\{c}{hex}\"\n")
        }
        15 => {
            // indicator + one following character in many contexts
            let ind = *r.pick(&["-", "?", ":", ",", "[", "]", "{", "}", "#", "&", "*", "!", "|", ">", "'", "\"", "%", "@", "`", "."]);
            let ch = *r.pick(CHARS);
            let ctx = *r.pick(&["@@", "- @@", "a: @@", "[@@]", "{@@: b}", "[a, @@]", "? @@\n", "a @@", "'a' @@", "a\n@@", "--- @@", "a@@", "[a@@]", "- - @@\n  - b", "x:\n  @@\n  y"]);
            format!("{}\n", ctx.replace("@@", &format!("{ind}{ch}")))
        }
        16 => {
            let n = r.range(1, 60);
            let mut s = String::new();
            for i in 0..n {
                s.push_str(&format!("%TAG !h{i}! tag:h{i},2000:\n"));
            }
            if r.chance(1, 6) {
                s.push_str("%TAG !h0! x\n");
            }
            s.push_str(&format!("--- !h{}!x y\n", r.below(n + 1)));
            s
        }
        17 => {
            // block scalar indentation grid
            let parent = r.below(4);
            let hint = r.below(10);
            let lead = r.below(8);
            let body = r.below(8);
            let ch = *r.pick(&["", "-", "+"]);
            let k = *r.pick(&["|", ">"]);
            let h = if hint == 0 { String::new() } else { hint.to_string() };
            let tabs = if r.chance(1, 6) { "\t" } else { "" };
            let pre = match r.below(3) {
                0 => format!("{}- ", " ".repeat(parent)),
                1 => format!("{}a: ", " ".repeat(parent)),
                _ => "--- ".to_string(),
            };
            let mut s = format!("{pre}{k}{h}{ch}\n{}{}\n", " ".repeat(lead), tabs);
            for _ in 0..r.range(1, 4) {
                let b = if r.chance(1, 3) { r.below(9) } else { body };
                s.push_str(&" ".repeat(b));
                s.push_str(*r.pick(&["x", "x y", "", "\tz", "- q", "#h"]));
                s.push('\n');
            }
            for _ in 0..r.below(4) {
                if r.chance(1, 3) {
                    s.push_str(&" ".repeat(r.below(6)));
                }
                s.push('\n');
            }
            s.push_str(*r.pick(&["", "b: c\n", "- d\n", "--- e\n", "...\n", "# c\n"]));
            s
        }
        18 => {
            // document markers inside things
            let m = *r.pick(&["---", "...", "--- ", "... ", "---x", "...x", "---\t"]);
            let ctx = *r.pick(&["'a\n@b'", "\"a\n@b\"", "a\n@b", "[a,\n@b]", "|\n a\n@b", "- a\n@b", "{a: b,\n@", "a: |\n@", ">\n@", "a:\n@", "?\n@", "# c\n@", "&a\n@", "!t\n@", "%YAML 1.1\n@"]);
            format!("{}\n", ctx.replace('@', m))
        }
        19 => {
            // directives mid-stream
            let d = *r.pick(&["%YAML 1.1\n", "%TAG !e! x\n", "%FOO\n", "%YAML 1.1\n%YAML 1.1\n", "%YAML 1.2\n%TAG ! y\n"]);
            let pre = *r.pick(&["", "a\n", "a\n...\n", "--- a\n", "---\n", "- b\n...\n#c\n", "[a]\n"]);
            let post = *r.pick(&["", "a\n", "---\n", "--- !e!x b\n", "...\n", "--- a\n--- !e!x b\n"]);
            format!("{pre}{d}{post}")
        }
        20 => {
            // forbidden or unusual characters
            let c = *r.pick(&['\u{0}', '\u{1}', '\u{7}', '\u{8}', '\u{b}', '\u{c}', '\u{e}', '\u{1f}', '\u{7f}', '\u{80}', '\u{84}', '\u{86}', '\u{9f}', '\u{fffe}', '\u{ffff}', '\u{feff}', '\u{1fffe}', '\u{a0}', '\u{85}']);
            let b = *r.pick(SEEDS);
            let p = floor(b, r.below(b.len() + 1));
            format!("{}{c}{}", &b[..p], &b[p..])
        }
        21 => {
            // indentation around flow collections and keys
            let i1 = r.below(5);
            let i2 = r.below(5);
            let k = *r.pick(&["a", "[a]", "{a: b}", "'a'", "\"a\"", "&x a", "!t a", "*x", "- a", "? a", ": a"]);
            let v = *r.pick(&["b", "[b]", "{b: c}", "'b'", "- b", "&y", "!t", "|\n   b", "? b", ""]);
            format!("{}{k}: {v}\n{}{}: d\n", " ".repeat(i1), " ".repeat(i2), r.pick(&["c", "[c]", "- c", "? c"]))
        }
        22 => {
            // node property permutations
            let mut s = String::new();
            for _ in 0..r.range(1, 4) {
                s.push_str(*r.pick(&["&a ", "!t ", "!!str ", "&b ", "*a ", "!<x> ", "\n", " ", "! "]));
            }
            s.push_str(*r.pick(&["x", "[x]", "{x: y}", "- x", "x: y", "|\n x", "'x'", "", "\nx: y", "\n- x"]));
            let ctx = *r.pick(&["@", "- @", "k: @", "[@]", "{@: v}", "{k: @}", "? @\n: v", "--- @", "[k: @]", "- - @"]);
            format!("{}\n", ctx.replace('@', &s))
        }
        23 => {
            // wide single line
            let n = r.range(1, 400);
            let mut s = String::from("[");
            for i in 0..n {
                s.push_str(&format!("{}{i}, ", r.pick(&["a", "é", "", "'q' "])));
            }
            s.push(']');
            if r.bool() {
                s.push_str(": v");
            }
            s.push('\n');
            s
        }
        24 => {
            // BOMs in the middle
            let b = *r.pick(SEEDS);
            let p = floor(b, r.below(b.len() + 1));
            format!("{}\u{feff}{}", &b[..p], &b[p..])
        }
        _ => {
            // comments everywhere
            let b = *r.pick(SEEDS);
            let mut s = String::new();
            for l in b.split_inclusive('\n') {
                if r.chance(1, 3) {
                    s.push_str(*r.pick(&["# c\n", "  # c\n", "\t# c\n", "#\n", "\n", "   \n"]));
                }
                s.push_str(l);
            }
            s
        }
    }
}

/// One text input of any class; `big` raises sizes.
pub fn any_text(r: &mut Rng, big: bool) -> (String, &'static str) {
    let (s, c) = any_lf_text(r, big);
    if r.chance(1, 12) {
        // The same text with other line breaks.
        let b = *r.pick(&["\r\n", "\r\n", "\r", "\u{85}", "\u{2028}"]);
        return (s.replace("\r\n", "\n").replace('\n', b), c);
    }
    (s, c)
}
fn any_lf_text(r: &mut Rng, big: bool) -> (String, &'static str) {
    let m = if big { 3 } else { 1 };
    match r.below(100) {
        0..=3 => ((*r.pick(SEEDS)).to_string(), "seed"),
        4..=27 => {
            let b = if r.chance(1, 30) { 200 * m } else { 30 };
            (structured(r, b), "structured")
        }
        28..=41 => {
            let s = structured(r, 25);
            (mutate(r, &s), "structured-mutated")
        }
        42..=59 => {
            let s = *r.pick(SEEDS);
            (mutate(r, s), "seed-mutated")
        }
        60..=75 => (soup(r, 24), "token-soup"),
        76..=81 => (charsoup(r, 30), "char-soup"),
        82..=85 => {
            let mut s = (*r.pick(SEEDS)).to_string();
            for _ in 0..r.range(1, 3) {
                s.push_str(*r.pick(SEEDS));
            }
            (s, "seed-concat")
        }
        86..=87 => {
            let s = boundary(r);
            (mutate(r, &s), "boundary-mutated")
        }
        88..=91 => (sized(r), "sized"),
        92 => {
            let s = sized(r);
            (mutate(r, &s), "sized-mutated")
        }
        _ => (boundary(r), "boundary"),
    }
}

/// A byte input: mostly text, sometimes damaged bytes or other encodings.
pub fn any_bytes(r: &mut Rng) -> (Vec<u8>, &'static str) {
    let (s, c) = any_text(r, false);
    match r.below(20) {
        0 => (to_utf16(&s, r.bool(), true), "utf16"),
        1 => {
            let mut b = to_utf16(&s, r.bool(), true);
            damage(r, &mut b);
            (b, "utf16-damaged")
        }
        2 => {
            let mut b = s.into_bytes();
            damage(r, &mut b);
            (b, "utf8-damaged")
        }
        3 => {
            let n = r.below(40);
            ((0..n).map(|_| r.next() as u8).collect(), "random-bytes")
        }
        4 => {
            let mut b = vec![0xef, 0xbb, 0xbf];
            b.extend(s.bytes());
            (b, "utf8-bom")
        }
        _ => (s.into_bytes(), c),
    }
}

pub fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(2) {
        let p = r.below(b.len() + 1);
        match r.below(7) {
            0 => b.truncate(p),
            1 if p < b.len() => b[p] = r.next() as u8,
            2 if p < b.len() => {
                b.remove(p);
            }
            3 => b.insert(p, r.next() as u8),
            4 => {
                const BAD: &[&[u8]] = &[
                    &[0xc0, 0x80], &[0xc1, 0xbf], &[0xe0, 0x80, 0x80], &[0xe0, 0x9f, 0xbf], &[0xed, 0xa0, 0x80], &[0xed, 0xbf, 0xbf], &[0xf0, 0x80, 0x80, 0x80], &[0xf0, 0x8f, 0xbf, 0xbf],
                    &[0xf4, 0x90, 0x80, 0x80], &[0xf8, 0x88, 0x80, 0x80, 0x80], &[0xff], &[0xfe], &[0x80], &[0xbf], &[0xc3], &[0xe2, 0x82], &[0xf0, 0x9f, 0x98], &[0xef, 0xbf, 0xbe], &[0xef, 0xbb, 0xbf], &[0xfe, 0xff], &[0xff, 0xfe], &[0xc2, 0x80], &[0x7f], &[0x00],
                ];
                let bad = *r.pick(BAD);
                for (i, x) in bad.iter().enumerate() {
                    b.insert(p + i, *x);
                }
            }
            5 => {
                const BAD16: &[&[u8]] = &[&[0x00, 0xd8], &[0xd8, 0x00], &[0x00, 0xdc], &[0xdc, 0x00], &[0xff, 0xdb], &[0xdb, 0xff], &[0x3d, 0xd8, 0x00, 0xde], &[0xd8, 0x3d, 0xde, 0x00]];
                let bad = *r.pick(BAD16);
                for (i, x) in bad.iter().enumerate() {
                    b.insert(p + i, *x);
                }
            }
            _ => {
                let q = (p + r.below(4)).min(b.len());
                b.drain(p..q);
            }
        }
    }
}

pub fn to_utf16(s: &str, be: bool, bom: bool) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len() * 2 + 2);
    let mut put = |u: u16| {
        let b = if be { u.to_be_bytes() } else { u.to_le_bytes() };
        v.extend_from_slice(&b);
    };
    if bom {
        put(0xfeff);
    }
    for u in s.encode_utf16() {
        put(u);
    }
    v
}
