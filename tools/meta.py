#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table (run from anywhere)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
I, C, F, H, S, P, K = "inputs", "configurations", "fault_sequences", "histories", "schedules", "programs", "crash_points"
TESTS = "The stable tests are two in-crate samples, a mark display test, one error-text test and a doc test; the YAML suite tests need a data directory that is not built in. "
ORACLE = "libyaml is taken to be the vendored unsafe-libyaml 0.2.11 (the translation this crate was ported from)."

T = []
def prop(id, title, statement, over, text, why, mech, technique, note, files=None, observe=None):
    files = files or sorted({w.split(":")[0] for _, w in mech})
    T.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=TESTS + why, mech=mech, technique=technique, note=note, files=files, observe=observe or []))

prop("C01", "Reading any input ends normally, in bounded steps",
  "Scanning, parsing or loading any byte sequence, in any encoding setting, ends with the end of the stream or with an error; it never panics, overflows the stack, or keeps producing results without end. The number of tokens, events and nodes is bounded by a small multiple of the input length. Calling again after the end or after an error is also safe and keeps reporting that there is no more, or an error.",
  [I, C], "every byte sequence (well-formed or not), every forced encoding, through tokens, events and documents, and any calls after the end",
  "They read a handful of fixed texts that are accepted.",
  [("token queue and simple keys", "src/scanner.rs: fetch_more_tokens"), ("state machine", "src/parser.rs: state_machine"), ("composer", "src/document.rs: load_document"), ("reader", "src/reader.rs: yaml_parser_update_buffer")],
  "crash/hang monitor with counters over generated hostile inputs, in separate worker processes",
  "Exploration. A panic, abort, stack overflow or more results than the bound is a violation; a case that takes longer than a very generous limit has no verdict unless it repeats alone. Cost is C29's matter.")

prop("C02", "The events of a text are libyaml's events",
  "For every input, the parser delivers the same sequence of events as libyaml: the same kinds in the same order with the same values, styles, anchors, tags, directives and implicit flags. It accepts exactly the inputs that libyaml accepts, and delivers the same events before an error.",
  [I, C], "every byte sequence and forced encoding, except tags whose %-escapes are not UTF-8 text (libyaml returns bytes a String cannot hold)",
  "Which of the unboundedly many texts differ is not something the samples can settle.",
  [("parser states", "src/parser.rs: state_machine"), ("node properties and content", "src/parser.rs: parse_node"), ("scalars", "src/scanner.rs: scan_block_scalar, scan_flow_scalar, scan_plain_scalar")],
  "differential monitor: online comparison of event traces with libyaml",
  "Exploration against a reference. " + ORACLE + " Encoding errors only have to be errors of the same kind (the README says their texts differ), and may be noticed a little earlier or later.")

prop("C03", "The tokens of a text are libyaml's tokens",
  "For every input, the scanner delivers the same tokens as libyaml with the same values and styles, in the same order, up to the end of the stream or an error at the same point.",
  [I, C], "every byte sequence and forced encoding", "They compare the tokens of two short texts.",
  [("tokens", "src/scanner.rs: fetch_next_token"), ("indentation", "src/scanner.rs: roll_indent, unroll_indent"), ("simple keys", "src/scanner.rs: save_simple_key, stale_simple_keys")],
  "differential monitor: token traces with marks against libyaml",
  "Exploration against a reference. " + ORACLE)

prop("C04", "Rejected input gets libyaml's error at libyaml's place",
  "When input is rejected, the error has the kind, problem, context and places (of the problem and of its context) that libyaml reports, whether met while scanning, parsing or loading documents. After an error nothing more is delivered.",
  [I, C], "every rejected byte sequence; texts of encoding errors are exempt", "They check the text of one error.",
  [("errors", "src/error.rs"), ("scanner errors", "src/scanner.rs: set_scanner_error"), ("parser errors", "src/parser.rs: Error::parser calls"), ("composer errors", "src/document.rs: load_alias, register_anchor")],
  "differential monitor: error values against libyaml",
  "Exploration against a reference. " + ORACLE)

prop("C05", "Marks are true positions in the text",
  "Every mark of a token, event, node, document or error is a position of the input: its line and column are those of the character at its index (counted in UTF-8 bytes), by YAML's line breaks. An event or token does not end before it starts, tokens and events are in the order of the text, and all marks are libyaml's.",
  [I, C], "every input of every encoding", "One test formats a mark; one compares marks of two ASCII texts.",
  [("position of the scanner", "src/scanner.rs: skip_char, skip_line_break, read_char, read_line_break"), ("event marks", "src/parser.rs"), ("node marks", "src/document.rs: load_scalar, load_sequence_end")],
  "monitor that recounts every position from the decoded text, and compares marks with libyaml's",
  "Exploration. The counting of lines and columns is independent of libyaml; equality with libyaml is a second oracle.")

prop("C06", "How input arrives does not matter; read errors surface once, in place",
  "Tokens, events and documents do not depend on how the source splits its data into pieces, on the kind of source, or on interrupted reads, which are retried. When the source fails, what was delivered before is a prefix of what the whole input yields, the failure surfaces as an I/O error that carries the source's own error, and nothing is lost or repeated.",
  [I, F, S], "every split of every input into reads, interruptions between them, and a failure at every offset", "They read from memory in one piece.",
  [("refilling the buffer", "src/reader.rs: yaml_parser_update_buffer, read_utf8_buffered, read_utf16_buffered"), ("look-ahead", "src/scanner.rs: cache"), ("I/O errors", "src/error.rs")],
  "fault-injecting source (splits, interrupts, failures) with trace comparison against an undisturbed run",
  "Exploration with fault injection at chosen and random offsets; the undisturbed run of the same code is the oracle.")

prop("C07", "The same text reads the same in every encoding",
  "A text encoded as UTF-8, UTF-16LE or UTF-16BE, with a byte order mark or with the encoding set by hand, yields the same tokens, events, documents, marks and errors; only the reported stream encoding differs, and it is the real one. A leading byte order mark is not content.",
  [I, C], "every text without forbidden characters, three encodings, with and without a byte order mark", "Nothing is read as UTF-16.",
  [("detection", "src/reader.rs: yaml_parser_determine_encoding"), ("decoding", "src/reader.rs: read_utf8_buffered, read_utf16_buffered"), ("stream start", "src/scanner.rs: fetch_stream_start")],
  "metamorphic monitor: traces of differently encoded copies of a text compared",
  "Exploration; the UTF-8 run is the oracle for the others (and C02 for it).")

prop("C08", "Malformed encoding and forbidden characters are rejected where they are",
  "Input that is not well-formed in its encoding, or contains a character YAML forbids, is rejected with a reader error that names the byte offset at which well-formed input ends, after only results that precede it. Well-formed input of allowed characters is never rejected by the reader.",
  [I, C], "every byte sequence in three encodings; damage at every offset", "No malformed input is tested.",
  [("UTF-8", "src/reader.rs: read_utf8_buffered, read_utf8_char_unbuffered"), ("UTF-16", "src/reader.rs: read_utf16_buffered, read_utf16_char_unbuffered"), ("allowed characters", "src/reader.rs: push_char")],
  "monitor with an independent decoder as oracle for offset and verdict",
  "Exploration. The decoder of the monitor is written from the Unicode and YAML definitions, not from the code.")

prop("C09", "Events and tokens always form a sentence of the grammar",
  "What the parser and the scanner deliver is always a prefix of a sentence of the event grammar (a stream of documents, each with one node; balanced collections; key-value pairs) and of the token grammar, complete when the end is reached. Iterating delivers the same as calling repeatedly, ends after the end of the stream or the first error, and stays ended.",
  [I, H], "every input, accepted or not, and every mix of iterator steps and calls", "Only accepted samples are checked, and not for structure.",
  [("states", "src/parser.rs: state_machine"), ("stack of states", "src/parser.rs: states"), ("iterators", "src/parser.rs: impl Iterator; src/scanner.rs: impl Iterator")],
  "online trace-specification checker (pushdown automaton) over event and token streams",
  "Exploration; the oracle is the grammar, independent of libyaml.", files=["src/parser.rs", "src/scanner.rs"])

prop("C10", "Loaded documents say what the events say",
  "Loading a document yields exactly the nodes that the events of the text describe, with values, styles, tags (defaulted where absent), places, directives and flags, and aliases leading to the node that last carried the anchor in this document; it is libyaml's document. Undefined aliases and duplicate anchors are reported as libyaml does, and every node reference in a document leads to a node of it.",
  [I], "every input; documents with shared, recursive, re-anchored and deeply nested nodes", "No test loads a document.",
  [("composer", "src/document.rs: load_document, load_nodes"), ("aliases", "src/document.rs: load_alias, register_anchor"), ("document", "src/document.rs")],
  "monitor that composes the recorded events with an executable model and compares documents, also with libyaml's",
  "Exploration against a model and a reference. " + ORACLE)

prop("C11", "Reset makes a parser, scanner or emitter like new",
  "After a reset, at whatever point and after whatever happened before (errors, I/O failures, other encodings, part of a stream), a parser, scanner or emitter behaves with new input or output exactly as a fresh one does, and nothing of what went before appears.",
  [H, I, C], "every history of use before the reset, and every use after it", "No test calls reset.",
  [("parser", "src/parser.rs: reset"), ("scanner", "src/scanner.rs: reset"), ("emitter", "src/emitter.rs: reset")],
  "history monitor: a reset instance and a fresh one run side by side",
  "Exploration; the fresh instance is the oracle.")

prop("C12", "Results arrive as soon as the input read allows",
  "A token or event is delivered without reading further into the source than libyaml would need for it, the first few bytes apart, where the encoding is detected; input that arrives slowly, such as a pipe with one document at a time, is processed as it arrives.",
  [I, S], "every input delivered byte by byte", "All tests have the whole input at hand.",
  [("look-ahead", "src/scanner.rs: cache, fetch_more_tokens"), ("refilling", "src/reader.rs: yaml_parser_update_buffer")],
  "monitor of bytes consumed per delivered event, byte-at-a-time source, against libyaml's consumption",
  "Exploration. At every event, consumption may exceed libyaml's by at most 4 bytes.")

prop("C13", "The emitter writes libyaml's bytes",
  "For every well-formed sequence of events and every setting, the emitter writes exactly the bytes libyaml writes.",
  [H, C], "every event sequence of the grammar, all values and tags, every combination of settings", "The emitter tests need absent data.",
  [("emitter states", "src/emitter.rs: state_machine"), ("analysis", "src/emitter.rs: analyze_scalar, analyze_event"), ("style choice", "src/emitter.rs: select_scalar_style"), ("writers", "src/emitter.rs: write_*")],
  "differential monitor: emitted bytes against libyaml",
  "Exploration against a reference. " + ORACLE + " For UTF-16 output libyaml's own bug with supplementary characters is avoided by transcoding its UTF-8.")

prop("C14", "The emitter takes any event sequence and refuses bad ones as libyaml does",
  "Any sequence of events, however malformed, either is written or makes the emitter report an emitter error at the same event and with the same problem as libyaml; it never panics, and once it has failed it keeps failing. What was written before is libyaml's output.",
  [H, C], "every sequence of events: wrong order, missing or surplus events, invalid anchors, tags and directives", "Only well-formed sequences are emitted.",
  [("states", "src/emitter.rs: state_machine"), ("checks", "src/emitter.rs: analyze_anchor, analyze_tag, analyze_version_directive, analyze_tag_directive")],
  "crash monitor and differential monitor over damaged event sequences",
  "Exploration against a reference. Where the sequence is not even nested, outputs are compared up to the shorter one.")

prop("C15", "What is emitted reads back as the same events",
  "Parsing what the emitter wrote for a well-formed sequence of events, under any settings, yields the same events: structure, values, anchors, aliases, tags, directives, implicit flags where they survive, and styles where the style was honoured.",
  [H, C], "every event sequence whose values are text YAML can carry, all settings", "Round trips are not tested.",
  [("analysis", "src/emitter.rs: analyze_scalar"), ("writers", "src/emitter.rs: write_*"), ("reader of it all", "src/scanner.rs")],
  "round-trip monitor: emit, parse, compare with the events that went in",
  "Exploration. Known limits of libyaml's own output (documented in DESIGN.md) have no verdict only where libyaml's output is the same and does not read back either.")

prop("C16", "The emitter's settings are obeyed",
  "Output keeps to the settings: line breaks of the chosen kind, no character outside ASCII unless unicode is allowed, the chosen encoding and byte order mark, the chosen indentation, lines folded at the chosen width where folding is possible, canonical form when asked. Settings out of range behave as the defaults libyaml uses, and no setting changes what the output means.",
  [C, H], "every combination of settings and event sequences", "One fixed setting per test, if any.",
  [("settings", "src/emitter.rs: set_canonical, set_indent, set_width, set_unicode, set_break, emit_stream_start"), ("start of stream", "src/emitter.rs: emit_stream_start"), ("folding", "src/emitter.rs: write_plain_scalar, write_double_quoted_scalar")],
  "monitor that scans the output for violations of each setting and compares meanings across settings",
  "Exploration with independent rules per setting.")

prop("C17", "Output reaches the sink whole, in order, and failures surface",
  "The bytes written do not depend on the sink or on how much it takes at a time; when a document ends and after flush or close everything emitted so far has reached the sink; a sink's failure surfaces as an I/O error from that or a later call, and what the sink received is a prefix of the right output. UTF-16 output is the UTF-8 output transcoded.",
  [F, H, C], "every event sequence, short writes, interruptions, failures after any number of bytes", "They write to memory.",
  [("flushing", "src/emitter.rs: flush"), ("buffer", "src/emitter.rs: put, write_char"), ("I/O errors", "src/error.rs")],
  "fault-injecting sink with byte-exact comparison",
  "Exploration with fault injection; the undisturbed output is the oracle.")

prop("C18", "A dumped document loads back as the same graph",
  "Dumping a document and loading the result gives an isomorphic document: same nodes, values, tags, styles where honoured, order, sharing and cycles, directives and flags. The bytes are those of emitting the document's events, with anchors id001, id002, … for nodes used more than once, and agree with libyaml wherever libyaml's own dump is right; depth does not matter.",
  [I, P, C], "every document graph that can be built, with sharing, cycles and any depth, under every setting", "No test dumps a document.",
  [("dump", "src/document.rs: dump"), ("anchors", "src/document.rs: anchor_node"), ("emitter", "src/emitter.rs")],
  "round-trip and model monitor over generated document graphs; graph isomorphism checker",
  "Exploration. libyaml's dump misses anchors of some shared nodes (a bug fixed here), so it is consulted only where it is right.")

prop("C19", "The document builder keeps what it was given",
  "A document built by adding nodes, items and pairs contains exactly those: ids count from 1, each id leads to its node, the root is the first node, tags default by kind, items keep their order, duplicates included. Invalid ids give nothing (or a documented panic), never another node, and cloning or comparing documents is faithful. Events, too, are what their constructors were given, and the tag constants name YAML's types.",
  [P], "every sequence of builder calls, including invalid ids and wrong kinds", "No test builds a document.",
  [("builder", "src/document.rs: add_scalar, add_sequence, add_mapping, append_sequence_item, yaml_document_append_mapping_pair, get_node, get_root_node")],
  "model-based monitor: every call mirrored in an executable model and compared",
  "Exploration; the model is independent of the code.")

prop("C20", "Rewriting a text preserves its content",
  "Parsing a text and emitting its events under any settings gives a text with the same content: same structure, values, anchors, aliases and resolved tags. Rewriting the result once more under the same settings changes nothing further in its events.",
  [I, C], "every accepted text and setting", "Not tested.",
  [("parser", "src/parser.rs"), ("emitter", "src/emitter.rs")],
  "metamorphic monitor: parse, emit, parse, compare",
  "Exploration. Texts whose rewriting libyaml itself gets wrong in the same way have no verdict (listed in DESIGN.md).")

prop("C23", "Error values are complete and consistent",
  "Every error has a kind, a problem and, for scanner, parser and composer errors, the place of the problem; a context comes with its place, which is not after the problem. The displayed text contains exactly these with lines and columns counted from 1, I/O errors carry the original error as source and convert back to it, and other errors do not pretend to be I/O errors.",
  [I, F], "every error that any input, event sequence or I/O failure can cause", "The text of one error is tested.",
  [("errors", "src/error.rs: Error, Display, TryFrom"), ("marks", "src/lib.rs: Mark")],
  "monitor over every error met: accessors, text, source and conversion cross-checked",
  "Exploration; the expected text is rebuilt from the accessors.", files=["src/error.rs", "src/lib.rs"])

prop("C24", "A document does not depend on what precedes it in the stream",
  "After an accepted text ended by a document end marker, the tokens, events, documents and errors of a following text are those it has on its own, with all marks moved by the length and lines of what precedes. Directives, anchors and tags of earlier documents have no effect.",
  [I, H], "every pair of texts of which the first is accepted", "Streams of several documents are not compared with their parts.",
  [("per-document state", "src/parser.rs: parse_document_end, parse_document_start"), ("anchors", "src/document.rs: load_document"), ("scanner state", "src/scanner.rs: fetch_document_indicator")],
  "metamorphic monitor: concatenation against parts",
  "Exploration; the parts read alone are the oracle.")

prop("C25", "Instances do not affect each other, and results are repeatable",
  "Parsers, scanners, emitters and documents share nothing: interleaving the steps of several of them in any order, on one thread or many, or moving them between threads, gives each the results it has alone. The same input gives the same results every time.",
  [S, I, H], "every interleaving of steps of several instances, also on several threads", "One instance at a time is used.",
  [("instance state", "src/parser.rs: Parser"), ("scanner state", "src/scanner.rs: Scanner"), ("emitter state", "src/emitter.rs: Emitter")],
  "schedule-perturbing monitor: interleaved and threaded runs against solo runs",
  "Exploration of random interleavings; there is no shared state in the design, so any difference is a violation.")

prop("C26", "Tags resolve by the directives of their own document",
  "A tag is delivered as its handle's prefix followed by its suffix, both with %-escapes decoded as UTF-8, where prefixes come from the %TAG directives of the same document or else from the defaults of '!' and '!!'; verbatim tags and the lone '!' are delivered as they stand, and the implicit flags follow from the tag and style. An undefined handle, a handle defined twice, or a malformed tag is an error at that tag or directive, and documents start with exactly their directives in order.",
  [I, H], "every mixture of directives and tags over several documents, on every kind of node", "No test has a %TAG directive.",
  [("directives", "src/parser.rs: process_directives, append_tag_directive"), ("resolution", "src/parser.rs: parse_node"), ("tags", "src/scanner.rs: scan_tag, scan_tag_handle, scan_tag_uri, scan_uri_escapes")],
  "generator that writes texts together with the events they must produce, compared online",
  "Exploration; the oracle is the generator's own resolution of the tags, independent of libyaml.")

prop("C27", "A scalar's value does not depend on how it is written",
  "Any string that a style can represent, written as a plain, single-quoted, double-quoted, literal or folded scalar with any legal choice of escapes, line folding, blank lines, indentation and its indicator, chomping indicator, comments and line breaks, in any context, is read as exactly that string with that style.",
  [I], "every string, every way to write it, in ten contexts (document, item, value, key, flow, …)", "A few scalars with one presentation each.",
  [("block scalars", "src/scanner.rs: scan_block_scalar, scan_block_scalar_breaks"), ("flow scalars", "src/scanner.rs: scan_flow_scalar"), ("plain scalars", "src/scanner.rs: scan_plain_scalar"), ("breaks", "src/scanner.rs: read_line_break")],
  "generator that writes a known string in many ways; what is read must be that string",
  "Exploration; the writer is independent of libyaml and of the emitter.")

prop("C21", "Memory stays valid, strings stay UTF-8, and everything is given back",
  "Whatever input, source, sink and order of calls, no undefined behaviour happens (the crate uses unchecked UTF-8 conversion when it decodes input in pieces), every string delivered in a token, event, node, directive or error is valid UTF-8, and once a parser, scanner, emitter or document is dropped, at whatever point, all memory it used has been given back.",
  [I, H, F], "every use of the API: any input in any pieces, I/O failures, partial use and early drops", "Tests neither look for undefined behaviour nor count memory.",
  [("unchecked conversion", "src/reader.rs: read_utf8_buffered"), ("escapes", "src/scanner.rs: scan_uri_escapes, scan_flow_scalar"), ("output", "src/emitter.rs: flush")],
  "undefined-behaviour interpreter (Miri) and AddressSanitizer over a mixed workload, leak-counting allocator, UTF-8 monitor over every string",
  "Exploration. Miri and AddressSanitizer are checked with a canary first; Miri runs about a thousand small cases in a quick run, AddressSanitizer about a million, the counting allocator 60 000.", files=["src/reader.rs", "src/scanner.rs", "src/parser.rs", "src/emitter.rs", "src/document.rs"])

prop("C22", "The command-line tools report what the library does",
  "run-parser-test-suite prints, for every file, the events of its text in the notation of the YAML test suite, one per line, up to an error, which goes to standard error with exit status 1; run-emitter-test-suite reads that notation and writes the text the emitter gives for these events, or fails with exit status 1. Neither ever panics on a text or on a well-formed listing, and the listing of one fed to the other gives a text with the same content.",
  [I], "every text, and every listing of well-formed events", "The tools run only against a suite that is absent here.",
  [("parser tool", "src/bin/run-parser-test-suite.rs"), ("emitter tool", "src/bin/run-emitter-test-suite.rs"), ("shared notation", "src/bin")],
  "process-level monitor: output, standard error and exit status of the real tools against the library's events and libyaml's text",
  "Exploration: whole processes on scratch files. The notation cannot carry tags with '>' or anchors with spaces; such events are not used.", files=["src/bin/run-parser-test-suite.rs", "src/bin/run-emitter-test-suite.rs"])

prop("C28", "Streams of any length need bounded memory",
  "When the source hands out pieces of bounded size, a parser or scanner whose results are taken one by one keeps no more than the current piece, token, nesting and directives need; an emitter keeps no more than its buffer and the few events it looks ahead; loading and dumping one document after another keeps one document. Nothing grows with the number of items or documents already handled, and one scalar, anchor, tag or comment costs at most in proportion to its own length (comments and blanks: nothing).",
  [H, I], "every repeated text, however often repeated: documents, items, pairs, comments, lines of a scalar", "Tests read short texts and never measure memory.",
  [("token queue", "src/scanner.rs: fetch_more_tokens, stale_simple_keys"), ("input buffer", "src/reader.rs: yaml_parser_update_buffer"), ("output buffer", "src/emitter.rs: flush_if_needed, flush"), ("per document", "src/document.rs: load, dump; src/parser.rs: parse_document_end")],
  "resource monitor: counting allocator, peak memory of a stream against that of one several times as long",
  "Exploration over generated repetitions; growth under 16 KiB over a stream about eight times as long is not seen.", files=["src/scanner.rs", "src/reader.rs", "src/emitter.rs", "src/document.rs", "src/parser.rs"])

prop("C29", "Cost grows with the length of the text, not faster",
  "Scanning, parsing, loading, building, emitting and dumping take time in proportion to the length of the text or events as long as nesting, and the anchors and directives of one document, stay bounded: many documents, items, pairs, long scalars in any style, comments, blank lines, in any encoding and in pieces of any size.",
  [I, H], "every repeated text, in every encoding and size of pieces", "Tests read short texts and never measure time.",
  [("scanner", "src/scanner.rs"), ("input", "src/reader.rs"), ("emitter", "src/emitter.rs"), ("document", "src/document.rs")],
  "resource monitor: CPU time of a stream against that of one eight times as long, measured repeatedly before it counts",
  "Exploration; a factor of three over proportional is tolerated, so that noise is never reported. Depth of nesting and the number of anchors in a document are excluded: libyaml, too, looks through all open levels and all anchors.", files=["src/scanner.rs", "src/reader.rs", "src/emitter.rs", "src/document.rs", "src/parser.rs"])

prop("C30", "Documents and events can be mixed on one stream",
  "Document by document, a stream can be read through Document::load or as events in any order, and each document and each event is the same as if the whole stream had been taken that way; after a document or event fails, nothing more comes. Likewise an open emitter accepts documents by Document::dump and as events in any order, and writes exactly what the events of all of them would have written.",
  [I, H], "every stream and every choice, document by document, of how it is read or written", "Tests take a whole stream one way.",
  [("load", "src/document.rs"), ("parser", "src/parser.rs"), ("dump", "src/document.rs"), ("open and close", "src/emitter.rs")],
  "online comparison of a mixed run with an undisturbed run of events, an independent composition of them, and the output of events alone",
  "Exploration over generated streams, texts and choices.", files=["src/document.rs", "src/parser.rs", "src/emitter.rs"])

T.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in T:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p["observe"] or ["public API"], hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']}", thorough_cmd=f"bash check.sh {p['id']}",
    technique=p["technique"], level="exploration", level_note=p["note"]) for p in T], not_applicable=[])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(T))
