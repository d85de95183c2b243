//! Cases that take every counter past 65 536: lines, columns, tokens, nodes, documents, items.
use crate::gen_yaml;
use crate::input::*;
use crate::model::*;

const N: usize = 66_000;
const BREAKS: [&str; 5] = ["\n", "\r\n", "\r", "\u{85}", "\u{2028}"];

fn case(label: String, s: String) -> Input {
    let mut i = Input::new(&format!("vast: {label}"));
    i.bytes = s.into_bytes();
    i
}

/// Texts.
pub fn texts() -> Vec<Input> {
    let mut v = vec![];
    let mut add = |l: &str, s: String| v.push(case(l.to_string(), s));
    for b in BREAKS {
        let name = format!("{b:?}");
        add(&format!("items, {name}"), format!("- a{b}").repeat(N));
        add(&format!("empty lines, {name}"), format!("{}a: b{b}c: \"{b}", b.repeat(N)));
        add(&format!("literal, {name}"), format!("a: |{b}{}b: [c{b}", format!("  x{b}").repeat(N)));
        add(&format!("double-quoted, {name}"), format!("- \"{}\"{b}- &a b{b}- *a{b}- ]{b}", format!("x{b}  ").repeat(N)));
    }
    for b in ["\n", "\r\n"] {
        let name = format!("{b:?}");
        add(&format!("folded, {name}"), format!("a: >{b}{}b: c{b}", format!("  x{b}").repeat(N)));
        add(&format!("plain lines, {name}"), format!("- {}{b}- b{b}\tc", format!("x{b}  ").repeat(N)));
        add(&format!("single-quoted, {name}"), format!("- '{}'{b}- *b{b}", format!("x{b}  ").repeat(N)));
        add(&format!("comments, {name}"), format!("{}a: b{b}", format!("# c{b}").repeat(N)));
        add(&format!("pairs, {name}"), format!("k: v{b}").repeat(N));
        add(&format!("documents, {name}"), format!("--- a{b}").repeat(N));
    }
    add("items and one that comes again", format!("- a\n{}- &late b\n- *late\n- {{*late : c, d: *late}}\n", "- a\n".repeat(N)));
    add("flow items", format!("[{}b: c, {{d: &x e}}, *x]\n", "a, ".repeat(N)));
    add("flow items, broken off", format!("{{{}}}\n- x", "a, ".repeat(N)));
    add("flow pairs", format!("- {{{}? e : f}}\n- @", "a: b, ".repeat(N)));
    add("items on items", format!("{}- [a, b]\n- c: d\n  e\n", "- - a\n".repeat(N / 2)));
    add("complex keys", "? a\n: b\n".repeat(N));
    add("documents with ends", "--- a\n...\n".repeat(N));
    add("documents with directives", "%YAML 1.1\n---\n- &a b\n- *a\n...\n".repeat(N / 4));
    add("anchors of their own document", "--- [&a b, *a]\n".repeat(N / 2));
    for c in ["x", "é", "漢", "😀"] {
        let w = c.repeat(N + 10);
        add(&format!("a long plain scalar of {c}"), format!("- {w}: {w}\n- ? {w}\n  : b\n"));
        add(&format!("a long quoted scalar of {c}"), format!("- {{'{w}', \"{w}\", b: c, d: &e f, g: *e}}\n- \"\\q\"\n"));
        add(&format!("a long comment of {c}"), format!("a: # {w}\n  b\n# {w}\nc: d # {w}"));
    }
    let w = "x".repeat(N + 10);
    let sp = " ".repeat(N);
    add("long names", format!("- &{w} a\n- *{w}\n- !{w} b\n- !<{w}> c\n- &{w}: d\n"));
    add("long directives", format!("%{w} a\n%TAG !{w}! tag:{w}\n--- !{w}!a b\n"));
    add("far indentation", format!("{sp}- a\n{sp}- b: c\n{sp}  d: |\n{sp}   e\n{sp}   f\n{sp}- - g\n"));
    add("far blocks", format!("- |\n{sp}a\n{sp} b\n- >\n{sp}a\n\n{sp}b\n-{sp}c: d\n  {sp}e: f\n"));
    add("spaces", format!("a:{sp}b{sp}# c\n{sp}\nd: [{sp}e{sp},{sp}f: g{sp}]{sp}\n{sp}\n...{sp}\n"));
    add("trailing lines", format!("- |+\n  a\n{}- b\n", "\n".repeat(N)));
    add("escapes", format!("- \"{}\"\n- \"{}\\xzz\"", "\\n".repeat(N), "\\u263A".repeat(N / 4)));
    for n in [300, 3000] {
        let heads: String = (0..n / 3).map(|k| format!("%TAG !h{k}! tag:h{k},2000:\n")).collect();
        let uses: String = (0..n / 3).map(|k| format!("- !h{k}!x {k}\n")).collect();
        add(&format!("{n} / 3 directives"), format!("{heads}---\n{uses}...\n{heads}---\n{uses}- !h{n}!x y\n"));
        let names: String = (0..n).map(|k| format!("- &n{k} {k}\n")).collect();
        let again: String = (0..n).rev().map(|k| format!("- *n{k}\n")).collect();
        add(&format!("{n} anchors"), format!("{names}{again}---\n{names}{again}- *n{n}\n"));
        add(&format!("{n} anchors, one twice"), format!("{names}- &n{} x\n", n - 1));
        let deep: String = (0..n / 6).map(|k| format!("{}k{k}:\n", " ".repeat(k))).collect();
        add(&format!("{n} / 6 levels"), format!("{deep}{}a: b\nc: d\n{} x\n", " ".repeat(n / 6), " ".repeat(n / 7)));
        let flow: String = (0..n / 2).map(|k| ["[", "{a: ", "[b, ", "{? "][k % 4]).collect();
        let ends: String = (0..n / 2).rev().map(|k| ["]", "}", "]", ": c}"][k % 4]).collect();
        add(&format!("{n} / 2 flow levels"), format!("- {flow}x{ends}\n- {flow}{}", &ends[..ends.len() - 1]));
    }
    // A key that waits while the tokens before it are handed out, near token 65 536.
    for n in 32_762..32_770 {
        let w = "x".repeat(1022);
        add(&format!("a key that waits, after {n} items"), format!("{}- [{w}, b: c]\n- {{{w}: , ? d : e}}\n- a\n", "- a\n".repeat(n)));
        add(&format!("the same, with a break, after {n} items"), format!("{}- [f, g,\n    b: c]\n- {{h: [i,\n   ? d : e]}}\n", "- a\n".repeat(n)));
    }
    for big in [false, true] {
        let mut i = case("UTF-16".into(), String::new());
        i.bytes = gen_yaml::to_utf16(&format!("{}- \"é", "- 漢: 😀\r\n".repeat(N)), big, true);
        v.push(i);
    }
    v
}

/// What a text can be made of, again and again: before, piece, after.
pub const RUNS: &[(&str, &str, &str)] = &[
    ("", "...\n", "a"), ("a\n", "...\n", "b"), ("--- a\n", "...\n", "--- b\n"), ("", "---\n", ""), ("", "--- \n...\n", "x"), ("", "...\n---\n", "a"), ("", "... # c\n", "%YAML 1.1\n--- a"),
    ("", "#\n", "a"), ("", "\n", "a"), ("", " \n", "a"), ("a:\n", " \t\n", " b"), ("a:\n", "  # c\n", "  b"), ("- a\n", "# c\n", "- b"), ("[a", " # c\n", ", b]"), ("[", "\r\n", "a]"), ("", "\u{2028}", "a"),
    ("", "-\n", ""), ("", "- \n", "a"), ("", "?\n", ""), ("", "? \n", ": a"), ("", ":\n", ""), ("", ": a\n", ""), ("", "? a\n", ""), ("", "a:\n", ""), ("", "a:\n- b\n", ""), ("", "a:\n- b\n- c\n", "d"),
    ("", "? - a\n: - b\n", ""), ("", "? a\n: b\n", ""), ("", "- ? a\n  : b\n", ""), ("", "- - a\n  - b\n", ""), ("", "- a: b\n  c: d\n", ""), ("", "- [a]\n", ""), ("", "- {}\n", ""), ("", "a: {b: c}\n", ""),
    ("", "- |\n", ""), ("", "- |\n x\n", ""), ("", "- >-\n x\n y\n\n", ""), ("", "- ''\n", ""), ("", "- \"\"\n", ""), ("", "- !t\n", ""), ("", "- ! a\n", ""), ("- &a b\n", "- *a\n", ""), ("&a b:\n- c\n", "*a : d\n", ""), ("", "- &a\n", ""),
    ("", "--- &a b\n", "--- *a"), ("", "--- !!t a\n", ""), ("", "--- |\n a\n", ""), ("", "--- [a]\n", ""), ("", "--- \"a\"\n", ""), ("", "%TAG ! x\n---\n...\n", "--- !a"), ("", "--- a\n--- b\n...\n", ""),
    ("[", "a, ", "]"), ("[", "a: b, ", "]"), ("[", ": b, ", "]"), ("[", "? a, ", "]"), ("[", "? a : b, ", "]"), ("[", "? , ", "]"), ("[", "[], ", "]"), ("[", "{}, ", "]"), ("[", "a,\n", "]"), ("[", "\"a\": b, ", "]"), ("[", "&a , ", "]"), ("[", "!t , ", "]"),
    ("{", "a, ", "}"), ("{", "a: b, ", "}"), ("{", ": b, ", "}"), ("{", "? a, ", "}"), ("{", "? , ", "}"), ("{", "a: , ", "}"), ("{", "[]: {}, ", "}"), ("{", "? a : b,\n", "}"), ("{", "\"a\":b,", "}"), ("[a", ",", "]"), ("{a", ",", "}"),
    ("\"", "\\\n", "\""), ("\"", "\n", "\""), ("\"", " \n", "\""), ("\"", "a\n", "\""), ("\"", "\\x41", "\""), ("\"", "\\ ", "\""), ("\"", "\\t\\\n ", "\""), ("'", "''", "'"), ("'", "\n", "'"), ("'", "a \n", "'"), ("'", " ", "'"), ("\"", "\t", "\""),
    ("|\n", " x\n", ""), ("|+\n x\n", "\n", "...\n"), ("|\n x\n", "  \n", " y"), (">\n", " x\n", ""), (">\n", " x\n\n", ""), (">\n", "  x\n y\n", " z"), (">-\n x\n", "\n", ""), ("|\n", "\n", " x"), ("a: |\n", " \tx\r", ""), (">\n", " x \n", ""),
    ("a", "\n b", ""), ("a", "\n\n b", ""), ("a", " b", ""), ("a", " ", "b"), ("a", "\n", " b"), ("- a\n", "  b\n", "- c"), ("a", "\t", ": b"), ("a", ":b", ": c"), ("a", "#b", ""), ("a", " -", ""), ("[a", "\n -b", "]"),
    ("!", "%41", " a"), ("!<", "%C3%A9", "> a"), ("%TAG !e! ", "%41", "\n--- !e!a b"), ("%TAG ! x", " ", "\n--- !a b"), ("%YAML 1.1", " ", "\n--- a"), ("%YAML 1.1 #", "c", "\n--- a"), ("&a", " ", "b"), ("!a", "\n", " b"), ("&a !b\n", "# c\n", " d"), ("---", " ", "a"), ("---", "\n", "a"),
    ("a", " ", "#"), ("-", " ", "a"), ("?", "\n", " a"), ("a:", "\n", " b"), ("a:", " ", "b"), ("|", " ", "\n x"), ("| #", "c", "\n x"), ("'a'", " ", ": b"), ("[a]", "\n", "b"), ("*", "a", ""), ("&", "-", " a"), ("!", "a", "!b c"),
];
/// The same piece thousands of times.
pub fn runs() -> Vec<Input> {
    RUNS.iter().map(|(a, b, c)| case(format!("{a:?} {b:?} {c:?}"), format!("{a}{}{c}\n", b.repeat(20_000)))).collect()
}

/// Take away the mistakes at the end of one of the texts.
pub fn accept(i: &mut Input) {
    if !i.label.starts_with("vast") || i.label.contains("UTF-16") {
        return;
    }
    for _ in 0..4 {
        if crate::refl::load(&i.bytes, 0).err.is_none() {
            break;
        }
        let broken = |c: char| matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}');
        let s = std::str::from_utf8(&i.bytes).unwrap_or("").trim_end_matches(broken);
        let cut = s.char_indices().rev().find(|(_, c)| broken(*c)).map_or(0, |(k, c)| k + c.len_utf8());
        i.bytes.truncate(cut);
    }
}

/// Event streams.
pub fn streams() -> Vec<Input> {
    all_streams().into_iter().filter(|i| !i.label.contains("deep flow")).collect()
}
/// Also those that take long to read again, as reading looks through all open levels.
pub fn all_streams() -> Vec<Input> {
    let scalar = |value: &str, style: u8| Ev::Scalar { anchor: None, tag: None, value: value.to_string(), plain: true, quoted: true, style };
    let start = || vec![Ev::StreamStart(1), Ev::DocStart { ver: None, tags: vec![], implicit: true }];
    let end = |v: &mut Vec<Ev>| v.extend([Ev::DocEnd { implicit: true }, Ev::StreamEnd]);
    let mut out = vec![];
    let mut add = |label: &str, evs: Vec<Ev>, width: i32| {
        let mut i = Input::new(&format!("vast: {label}"));
        i.evs = evs;
        i.cfg.width = Some(width);
        out.push(i);
    };
    for (label, style, width) in [("items", 1u8, 80), ("flow items", 2, 80), ("flow items on a line", 2, -1)] {
        let mut e = start();
        e.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style });
        for _ in 0..N {
            e.push(scalar("a", 0));
        }
        for s in ["a b", "c: d", "é", "", "-"] {
            for st in 1..=5 {
                e.push(scalar(s, st));
            }
        }
        e.push(Ev::SeqEnd);
        end(&mut e);
        add(label, e, width);
        let mut e = start();
        e.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style });
        for k in 0..N {
            e.push(scalar(if k % 7 == 0 { "a b" } else { "k" }, 0));
            e.push(scalar("v", if k % 5 == 0 { 3 } else { 0 }));
        }
        e.push(Ev::MapEnd);
        end(&mut e);
        add(&format!("{label}, in pairs"), e, width);
    }
    // Nesting: with something of every kind at each level, and deeper than 65 536.
    for (label, depth, style, width, rich) in [("levels", 1100usize, 1u8, 80, true), ("flow levels", 1100, 2, 80, true), ("flow levels on a line", 1100, 2, -1, true), ("deep flow levels", N + 10, 2, -1, false)] {
        for kind in 0..3 {
            let mut e = start();
            let map = |k: usize| kind == 1 || kind == 2 && k % 2 == 1;
            for k in 0..depth {
                if map(k) {
                    e.push(Ev::MapStart { anchor: None, tag: None, implicit: true, style });
                    if rich {
                        e.extend([scalar(["a, b", "k", "? c", "- d"][k % 4], 0), scalar(["x\ny", "", "#", "a: b"][k % 4], (k % 6) as u8)]);
                    }
                    e.push(scalar(["in", "i, n"][k % 3 % 2], 0));
                } else {
                    e.push(Ev::SeqStart { anchor: None, tag: None, implicit: true, style });
                    if rich {
                        e.extend([scalar(["a, b", "x", "[c", "-"][k % 4], 0), scalar(["x\ny", "", "#", "a: b"][k % 4], (k % 6) as u8)]);
                    }
                }
            }
            e.push(scalar("a, b", 1));
            for k in (0..depth).rev() {
                e.push(if map(k) { Ev::MapEnd } else { Ev::SeqEnd });
                if k > 0 && k % 16 == 0 && !map(k - 1) {
                    e.push(scalar("c, d: e", 1));
                }
            }
            end(&mut e);
            add(&format!("{label}, {kind}"), e, width);
        }
    }
    let mut e = vec![Ev::StreamStart(1)];
    for k in 0..N {
        e.extend([Ev::DocStart { ver: None, tags: vec![], implicit: k % 3 == 0 }, scalar(["a", "b c", ""][k % 3], (k % 6) as u8), Ev::DocEnd { implicit: k % 5 != 0 }]);
    }
    e.push(Ev::StreamEnd);
    add("documents", e, 80);
    for (label, value) in [
        ("words", "word ".repeat(N / 2) + "end"),
        ("lines", "line\n".repeat(N)),
        ("a word", "x".repeat(N + 10)),
        ("other letters", "漢é😀 ".repeat(N / 4) + "end"),
        ("breaks", "a".to_string() + &"\n".repeat(N) + "b"),
        ("other breaks", "a\u{2028}\u{85}".repeat(N / 2) + "b"),
        ("special", "\u{1}\"\\".repeat(N / 2)),
    ] {
        for style in 1..=5 {
            let mut e = start();
            e.extend([Ev::SeqStart { anchor: None, tag: None, implicit: true, style: 1 }, scalar(&value, style), scalar("a b", 3), Ev::SeqEnd]);
            end(&mut e);
            add(&format!("{label}, style {style}"), e, if style % 2 == 0 { 80 } else { -1 });
        }
    }
    out
}
