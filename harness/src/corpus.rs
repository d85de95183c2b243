//! Hand-written seed inputs: the YAML specification's example classes plus libyaml's edge features.
pub const SEEDS: &[&str] = &[
    "", "\n", " ", "#", "# c\n", "---", "---\n", "...", "...\n", "--- \n...\n", "---\n---\n", "a", "a\n", "a: b", "a: b\n", "- a\n- b\n",
    "{}", "[]", "[a]", "{a: b}", "{a}", "[a, b]\n", "{a: b, c: d}\n", "[a: b]\n", "[? a : b]\n", "{? a : b}\n", "? a\n: b\n", "? a\n", ": b\n",
    "'a'", "\"a\"", "|\n a\n", ">\n a\n", "*a", "&a b\n", "!t a\n", "!!str a\n", "!<tag:x> a\n", "! a\n",
    "- Mark McGwire\n- Sammy Sosa\n- Ken Griffey\n",
    "hr:  65    # Home runs\navg: 0.278 # Batting average\nrbi: 147   # Runs Batted In\n",
    "american:\n  - Boston Red Sox\n  - Detroit Tigers\nnational:\n  - New York Mets\n  - Chicago Cubs\n",
    "-\n  name: Mark McGwire\n  hr:   65\n  avg:  0.278\n-\n  name: Sammy Sosa\n  hr:   63\n",
    "- [name        , hr, avg  ]\n- [Mark McGwire, 65, 0.278]\n- [Sammy Sosa  , 63, 0.288]\n",
    "Mark McGwire: {hr: 65, avg: 0.278}\nSammy Sosa: {\n    hr: 63,\n    avg: 0.288\n  }\n",
    "# Ranking of 1998 home runs\n---\n- Mark McGwire\n- Sammy Sosa\n\n# Team ranking\n---\n- Chicago Cubs\n- St Louis Cardinals\n",
    "---\ntime: 20:03:20\nplayer: Sammy Sosa\naction: strike (miss)\n...\n---\ntime: 20:03:47\nplayer: Sammy Sosa\naction: grand slam\n...\n",
    "---\nhr: # 1998 hr ranking\n  - Mark McGwire\n  - Sammy Sosa\nrbi:\n  # 1998 rbi ranking\n  - Sammy Sosa\n  - Ken Griffey\n",
    "---\nhr:\n  - Mark McGwire\n  # Following node labeled SS\n  - &SS Sammy Sosa\nrbi:\n  - *SS # Subsequent occurrence\n  - Ken Griffey\n",
    "? - Detroit Tigers\n  - Chicago cubs\n:\n  - 2001-07-23\n\n? [ New York Yankees,\n    Atlanta Braves ]\n: [ 2001-07-02, 2001-08-12,\n    2001-08-14 ]\n",
    "---\n# Products purchased\n- item    : Super Hoop\n  quantity: 1\n- item    : Basketball\n  quantity: 4\n- item    : Big Shoes\n  quantity: 1\n",
    "# ASCII Art\n--- |\n  \\//||\\/||\n  // ||  ||__\n",
    "--- >\n  Mark McGwire's\n  year was crippled\n  by a knee injury.\n",
    ">\n Sammy Sosa completed another\n fine season with great stats.\n\n   63 Home Runs\n   0.288 Batting Average\n\n What a year!\n",
    "name: Mark McGwire\naccomplishment: >\n  Mark set a major league\n  home run record in 1998.\nstats: |\n  65 Home Runs\n  0.278 Batting Average\n",
    "unicode: \"Sosa did fine.\\u263A\"\ncontrol: \"\\b1998\\t1999\\t2000\\n\"\nhex esc: \"\\x0d\\x0a is \\r\\n\"\n\nsingle: '\"Howdy!\" he cried.'\nquoted: ' # Not a ''comment''.'\ntie-fighter: '|\\-*-/|'\n",
    "plain:\n  This unquoted scalar\n  spans many lines.\n\nquoted: \"So does this\n  quoted scalar.\\n\"\n",
    "---\nnot-date: !!str 2002-04-28\n\npicture: !!binary |\n R0lGODlhDAAMAIQAAP//9/X17unp5WZmZgAAAOfn515eXv\n Pz7Y6OjuDg4J+fn5OTk6enp56enmlpaWNjY6Ojo4SEhP/++f\n\napplication specific tag: !something |\n The semantics of the tag\n above may be different for\n different documents.\n",
    "%TAG ! tag:clarkevans.com,2002:\n--- !shape\n  # Use the ! handle for presenting\n  # tag:clarkevans.com,2002:circle\n- !circle\n  center: &ORIGIN {x: 73, y: 129}\n  radius: 7\n- !line\n  start: *ORIGIN\n  finish: { x: 89, y: 102 }\n- !label\n  start: *ORIGIN\n  color: 0xFFEEBB\n  text: Pretty vector drawing.\n",
    "# Sets are represented as a\n# Mapping where each key is\n# associated with a null value\n--- !!set\n? Mark McGwire\n? Sammy Sosa\n? Ken Griff\n",
    "--- !!omap\n- Mark McGwire: 65\n- Sammy Sosa: 63\n- Ken Griffy: 58\n",
    "--- !<tag:clarkevans.com,2002:invoice>\ninvoice: 34843\ndate   : 2001-01-23\nbill-to: &id001\n    given  : Chris\n    family : Dumars\n    address:\n        lines: |\n            458 Walkman Dr.\n            Suite #292\n        city    : Royal Oak\nship-to: *id001\nproduct:\n    - sku         : BL394D\n      quantity    : 4\n      description : Basketball\ntax  : 251.42\ncomments:\n    Late afternoon is best.\n    Backup contact is Nancy\n    Billsmer @ 338-4338.\n",
    "sequence:\n- one\n- two\nmapping:\n  ? sky\n  : blue\n  sea : green\n",
    "anchored: !local &anchor value\nalias: *anchor\n",
    "literal: |\n  some\n  text\nfolded: >\n  some\n  text\n",
    "single: 'text'\ndouble: \"text\"\n",
    "%YAML 1.2\n--- text\n", "%YAML 1.1\n---\na\n", "%FOO  bar baz # Should be ignored\n              # with a warning.\n--- \"foo\"\n",
    "commercial-at: @text\ngrave-accent: `text\n",
    "|\nLine break (no glyph)\nLine break (glyphed)\n", "quoted: \"Quoted \t\"\nblock:\t|\n  void main() {\n  \tprintf(\"Hello, world!\\n\");\n  }\n",
    "\"Fun with \\\\\n\\\" \\a \\b \\e \\f \\\n\\n \\r \\t \\v \\0 \\\n\\  \\_ \\N \\L \\P \\\n\\x41 \\u0041 \\U00000041\"\n",
    "Bad escapes:\n  \"\\c\n  \\xq-\"\n",
    "  # Leading comment line spaces are\n  # neither content nor indentation.\n    \nNot indented:\n By one space: |\n    By four\n      spaces\n Flow style: [    # Leading spaces\n   By two,        # in flow style\n  Also by two,    # are neither\n  \tStill by two   # content nor\n    ]             # indentation.\n",
    "? a\n: -\tb\n  -  -\tc\n     - d\n", "- foo:\t bar\n- - baz\n  -\tbaz\n",
    "plain: text\n  lines\nquoted: \"text\n  \tlines\"\nblock: |\n  text\n   \tlines\n",
    "Folding:\n  \"Empty line\n   \t\n  as a line feed\"\nClipped empty lines: |\n  a line feed\n ",
    ">-\n  trimmed\n  \n \n\n  as\n  space\n", ">\n  foo \n \n  \t bar\n\n  baz\n", "\"\n  foo \n \n  \t bar\n\n  baz\n\"\n",
    "key:    # Comment\n        # lines\n  value\n\n\n", "{ first: Sammy, last: Sosa }:\n# Statistics:\n  hr:  # Home runs\n     65\n  avg: # Average\n   0.278\n",
    "%YAML 1.3 # Attempt parsing\n           # with a warning\n---\n\"foo\"\n", "%YAML 1.2\n%YAML 1.1\nfoo\n", "%TAG !yaml! tag:yaml.org,2002:\n---\n!yaml!str \"foo\"\n", "%TAG ! !foo\n%TAG ! !foo\nbar\n",
    "# Private\n!foo \"bar\"\n...\n# Global\n%TAG ! tag:example.com,2000:app/\n---\n!foo \"bar\"\n", "%TAG !! tag:example.com,2000:app/\n---\n!!int 1 - 3 # Interval, not integer\n", "%TAG !e! tag:example.com,2000:app/\n---\n!e!foo \"bar\"\n",
    "%TAG !m! !my-\n--- # Bulb here\n!m!light fluorescent\n...\n%TAG !m! !my-\n--- # Color here\n!m!light green\n",
    "!!str &a1 \"foo\":\n  !!str bar\n&a2 baz : *a1\n", "!<tag:yaml.org,2002:str> foo :\n  !<!bar> baz\n", "- !<!> foo\n- !<$:?> bar\n", "%TAG !e! tag:example.com,2000:app/\n---\n- !local foo\n- !!str bar\n- !e!tag%21 baz\n",
    "%TAG !e! tag:example,2000:app/\n---\n- !e! foo\n- !h!bar baz\n", "# Assuming conventional resolution:\n- \"12\"\n- 12\n- ! 12\n", "First occurrence: &anchor Foo\nSecond occurrence: *anchor\nOverride anchor: &anchor Bar\nReuse anchor: *anchor\n",
    "{\n  foo : !!str,\n  !!str : bar,\n}\n", "{\n  ? foo :,\n  : bar,\n}\n", "'implicit block key' : [\n  'implicit flow key' : value,\n ]\n", "\"folded \nto a space,\t\n \nto a line feed, or \t\\\n \\ \tnon-content\"\n",
    "\" 1st non-empty\n\n 2nd non-empty \n\t3rd non-empty \"\n", " 'here''s to \"quotes\"'\n", "' 1st non-empty\n\n 2nd non-empty \n\t3rd non-empty '\n",
    "# Outside flow collection:\n- ::vector\n- \": - ()\"\n- Up, up, and away!\n- -123\n- http://example.com/foo#bar\n# Inside flow collection:\n- [ ::vector,\n  \": - ()\",\n  \"Up, up and away!\",\n  -123,\n  http://example.com/foo#bar ]\n",
    "1st non-empty\n\n 2nd non-empty \n\t3rd non-empty\n", "- [ one, two, ]\n- [three ,four]\n", "[\n\"double\n quoted\", 'single\n           quoted',\nplain\n text, [ nested ],\nsingle: pair,\n]\n",
    "- { one : two , three: four , }\n- {five: six,seven : eight}\n", "{\n? explicit: entry,\nimplicit: entry,\n?\n}\n", "{\nunquoted : \"separate\",\nhttp://foo.com,\nomitted value:,\n: omitted key,\n}\n",
    "{\n\"adjacent\":value,\n\"readable\": value,\n\"empty\":\n}\n", "[\nfoo: bar\n]\n", "[\n? foo\n bar : baz\n]\n", "- [ YAML : separate ]\n- [ : empty key entry ]\n- [ {JSON: like}:adjacent ]\n",
    "- [ a, b ]\n- { a: b }\n- \"a\"\n- 'b'\n- c\n", "- !!str \"a\"\n- 'b'\n- &anchor \"c\"\n- *anchor\n- !!str\n", "- | # Empty header\n literal\n- >1 # Indentation indicator\n  folded\n- |+ # Chomping indicator\n keep\n\n- >1- # Both indicators\n  strip\n",
    "- |\n detected\n- >\n \n  \n  # detected\n- |1\n  explicit\n- >\n \t\n detected\n", "- |\n  \n text\n- >\n  text\n text\n- |2\n text\n", "strip: |-\n  text\nclip: |\n  text\nkeep: |+\n  text\n",
    " # Strip\n  # Comments:\nstrip: |-\n  # text\n  \n # Clip\n  # comments:\n\nclip: |\n  # text\n \n # Keep\n  # comments:\n\nkeep: |+\n  # text\n\n # Trail\n  # comments.\n",
    "strip: >-\n\nclip: >\n\nkeep: |+\n\n", "|\n literal\n \ttext\n\n\n", "|\n \n  \n  literal\n   \n  \n  text\n\n # Comment\n", ">\n\n folded\n line\n\n next\n line\n   * bullet\n\n   * list\n   * lines\n\n last\n line\n\n# Comment\n",
    "block sequence:\n  - one\n  - two : three\n", "-\n- |\n block node\n- - one\n  - two\n- one: two\n", "block mapping:\n key: value\n", "? explicit key # Empty value\n? |\n  block key\n: - one\n  - two\n", "plain key: in-line value\n: # Both empty\n\"quoted key\":\n- entry\n",
    "- sun: yellow\n- ? earth: blue\n  : moon: white\n", "-\n  \"flow in block\"\n- >\n Block scalar\n- !!map # Block collection\n  foo : bar\n", "literal: |2\n  value\nfolded:\n   !foo\n  >1\n value\n", "sequence: !!seq\n- entry\n- !!seq\n - nested\nmapping: !!map\n foo: bar\n",
    "%YAML 1.2\n---\nDocument\n... # Suffix\n", "Bare\ndocument\n...\n# No document\n...\n|\n%!PS-Adobe-2.0 # Not the first line\n", "---\n{ matches\n% : 20 }\n...\n---\n# Empty\n...\n", "%YAML 1.2\n--- |\n%!PS-Adobe-2.0\n...\n---\n# Empty\n...\n", "Document\n---\n# Empty\n...\n%YAML 1.2\n---\nmatches %: 20\n",
    "A null: null\nBooleans: [ True, FALSE ]\nIntegers: [ 0, 0o7, 0x3A, -19 ]\nFloats: [ 0., -0.0, .5, +12e03, -2E+05 ]\n", "a: !!set {x, y}\n",
    "a:\n- b\n-  - c\n   - d\n-\n e: f\n", "a: &x\n  - *x\n", "&a a: &b b\n*a : *b\n", "- &a !t x\n- !t &a x\n- &a\n- !t\n- &a !t\n", "&r\n- a\n", "&r !t\n? &k !k k\n: &v !v v\n", "[&a a, *a , &b !t [x], {&c : d}]\n",
    "a: 'it''s'\nb: \"x\\\"y\"\nc: 'line\n\n  two'\n", "%TAG !a%21 x\n--- !a%21b\n", "!e%20f%C3%A9 x\n", "!<%41%e2%82%ac> x\n", "--- !!str%2Fx a\n", "a : b : c\n", "a: b: c\n", "- - - a\n    - b\n  - c\n- d\n",
    "\u{feff}a: b\n", "\u{feff}", "a\u{85}b: c\u{2028}d\u{2029}e\n", "\"a\u{85}b\u{2028}c\u{2029} d\"\n", "|\n a\u{2028}\n b\u{85} c\n", "key\u{2028}k: v\n", "é: ü\n漢字: かな\n🎉: 😀\n", "\"\\ud83d\"\n", "\"\\U00110000\"\n", "\"\\U0010FFFF\"\n", "\"\\u00e9\\xe9\\u20ac\\U0001f600\"\n",
    "a\r\nb\r\n", "- a\r- b\r", "\"a\r\nb\rc\"\r\n", "|\r\n a\r\n b\r\n", "# c\r\na: b # d\r\n", "- [a,\r\n b]\r\n",
    "a\tb\n", "a:\tb\n", "-\ta\n", "\ta\n", "[\ta\t,\tb\t]\n", "a: b\t# c\n", "a: b #c\n", "a: b#c\n", "a#b: c\n", "a: - b\n", "- a: b\n  c: d\n - e\n", "a:\n b\nc\n", "a\nb: c\n", "a: [\nb\n", "a: {\nb\n", "[a, b", "{a: b", "[a b: c]\n", "{a, b: c, ? d}\n", "[,]\n", "{,}\n", "[a,,b]\n", "}\n", "]\n", ",\n", "- ]\n",
    "@\n", "`\n", "%\n", "%a\n", "% a\n", "%YAML\n", "%YAML 1\n", "%YAML 1.\n", "%YAML 1.1.1\n--- a\n", "%YAML a.b\n--- x\n", "%YAML 123456789.1\n--- x\n", "%YAML 1234567890.1\n--- x\n", "%YAML 2.0\n--- x\n", "%TAG\n", "%TAG !\n", "%TAG ! \n", "%TAG a b\n--- x\n", "%TAG !a b\n--- x\n", "%TAG !a! b c\n--- x\n", "%TAG !a! b#c\n--- !a!x y\n", "%YAML 1.1\na\n", "%YAML 1.1 #c\n---\n",
    "&\n", "& a\n", "*\n", "* a\n", "&a*b c\n", "&a:b c\n", "*a:b\n", "&a,b c\n", "[&a, b]\n", "[*a, b]\n", "!<\n", "!<>\n", "!<a\n", "!<a>b\n", "!a!\n", "!a!b!c d\n", "!!\n", "!! a\n", "!a,b c\n", "[!a, b]\n", "{!!str, a}\n", "!%\n", "!%4\n", "!%zz a\n", "!%ff a\n", "!%c3 a\n", "!%c3%28 a\n", "!%ed%a0%80 a\n", "!%00 a\n",
    "|x\n a\n", "|0\n a\n", "|+-\n a\n", "|12\n a\n", "|-+\n", "| a\n", "|#c\n", "| #c\n a\n", ">+\n a\n\n\n", "|+\n\n\n", "|-\n a\n \n", "|9\n          a\n", "-  |1\n  a\n   b\n", "- |\n\ta\n", "|\n a\n\tb\n", "a: |\n b\nc\n", ">\n a\n  b\n\n  c\n d\n\n\n e\n", ">2\n    a\n  b\n   c\n",
    "'", "\"", "'a", "\"a", "'a\n---\nb'\n", "\"a\n...\nb\"\n", "\"\\", "\"\\\n\"", "\"\\x\"", "\"\\x4\"", "\"\\u12\"", "\"\\q\"", "\"a\\\n   b\"", "\"a \\\n   b\"", "\"a\\ \n b\"", "''\n", "\"\"\n", "'' : \"\"\n", "''''\n", "'a'b\n", "\"a\"b\n", "\"a\" b: c\n", "\"a\"\n: b\n", "\"a\" :b\n", "['a':b]\n", "{\"a\":b}\n", "{a:b}\n", "{a:}\n", "[a:]\n", "{a: }\n", "{? }\n", "[?]\n", "[? ]\n", "{?a: b}\n", "?a\n", "?\n", "? \n", "-\n", "- \n", "-a\n", "--\n", "---a\n", "--- a\n--- b\n", "...a\n", "... a\n", "a\n...\nb\n", "a\n---\nb\n...\n...\n---\n", "--- &a\n--- *a\n", "--- |\n a\n--- >\n b\n", "---\t|\n a\n", "--- # c\na\n", "--- a: b\n", "--- - a\n", "--- {a: b}\n", "--- [\n--- ]\n", ":\n", ": \n", ": a\n: b\n", ":a\n", "::\n", "a::b\n", "a: :b\n", "- : a\n", "- ? a\n", "- ? a\n  : b\n", "? ? a\n", "? - a\n: - b\n", "? a\nb: c\n", "? a\n? b\n: c\n", "a:\n? b\n", "a: ? b\n", "x:\n- a\n - b\n", "x:\n  - a\n- b\n", "a: b\n  c: d\n", "  a: b\n c: d\n", "a:\n    b:\n  c: d\n", "a: &x b\nc: &x d\ne: *x\n", "*undefined\n", "- *a\n- &a b\n", "a: \"b\": c\n", "a: 'b' 'c'\n", "a: [b] c\n", "a: {b: c} d\n", "[a] : b\n", "{a: b} : c\n", "[a]: b\n[c]: d\n", "[a\n]: b\n", "? [a\n ]\n: b\n", "a\n  b\n  c: d\n", "a b c\n  d e f\n\n  g\n", "a # c\n  b\n", "#a\n#b\n\n\n#c", "a: b\n\n\n\n", "\n\n\na: b", "a:\n\n\n  b\n", "- #c\n  a\n", "[#c\na]\n", "[ #c\na]\n", "{ #c\na: #d\nb}\n",
    "- !!int 1\n- !!float 1.0\n- !!bool yes\n- !!null\n- !!timestamp 2001-01-01\n- !!seq [a]\n- !!map {a: b}\n- !local {a: b}\n- !<tag:x,2000:y> [z]\n- ! [q]\n",
    "{a: [b, {c: [d, {e: f}]}], g: {h: [i]}}\n", "a:\n  b:\n    c:\n      d:\n        - e:\n            - f\n", "- - - - - - a\n", "? ? ? a\n  : b\n: c\n", "[[[[[[a]]]]]]\n", "{{a: b}: c}\n", "[{a: b, c}, [d, e: f]]\n",
];
