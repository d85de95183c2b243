From eb3d3c8227aaa0641aee095584bba30360264d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 01/19] fix: spell 'hexadecimal' in the escape-code error as
 libyaml does

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..97b3acf 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1630,7 +1630,7 @@ impl<R: BufRead> Scanner<R> {
                                     return self.set_scanner_error(
                                         "while parsing a quoted scalar",
                                         start_mark,
-                                        "did not find expected hexdecimal number",
+                                        "did not find expected hexadecimal number",
                                     );
                                 }
                                 value = (value << 4) + AS_HEX_AT!(self.buffer, k);
-- 
2.43.0


From cf4b5243a76f62fdd479d4e20d8bfc39ac38b423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 02/19] fix: do not panic on a block scalar that ends at the
 end of input without a line break

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 97b3acf..f89bec8 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,8 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            // Like libyaml's `READ_LINE`, do nothing when not at a line break.
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From 9527f895e23de4e16fdbd695a1e5834daf5b57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 03/19] fix: report an error instead of panicking on a
 backslash at the end of input in a quoted scalar

---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index f89bec8..75a3cb3 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1539,7 +1539,7 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From e93852c2332232d22038b6905df6ef9c809254d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 04/19] fix: accept a tag followed by ',' in a flow collection
 instead of panicking

---
 src/scanner.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 75a3cb3..be8c77a 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1102,15 +1102,12 @@ impl<R: BufRead> Scanner<R> {
         }
 
         self.cache(1)?;
-        if !IS_BLANKZ!(self.buffer) {
-            if self.flow_level == 0 || !CHECK!(self.buffer, ',') {
-                return self.set_scanner_error(
-                    "while scanning a tag",
-                    start_mark,
-                    "did not find expected whitespace or line break",
-                );
-            }
-            panic!("TODO: What is expected here?");
+        if !IS_BLANKZ!(self.buffer) && (self.flow_level == 0 || !CHECK!(self.buffer, ',')) {
+            return self.set_scanner_error(
+                "while scanning a tag",
+                start_mark,
+                "did not find expected whitespace or line break",
+            );
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From c662b20cab2c53c3f749931ffbd331d610c2ed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:34 +0000
Subject: [PATCH 05/19] fix: decode %-escaped octets in tags as UTF-8

---
 src/scanner.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index be8c77a..779d328 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1224,6 +1224,7 @@ impl<R: BufRead> Scanner<R> {
         string: &mut String,
     ) -> Result<()> {
         let mut width: i32 = 0;
+        let mut octets = Vec::with_capacity(4);
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1253,7 +1254,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1276,7 +1276,7 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets.push(octet);
             self.skip_char();
             self.skip_char();
             self.skip_char();
@@ -1285,6 +1285,22 @@ impl<R: BufRead> Scanner<R> {
                 break;
             }
         }
+        // The octets are well-formed UTF-8 at this point, except for overlong
+        // sequences, surrogates, and code points beyond U+10FFFF.
+        match core::str::from_utf8(&octets) {
+            Ok(decoded) => string.push_str(decoded),
+            Err(_) => {
+                return self.set_scanner_error(
+                    if directive {
+                        "while parsing a %TAG directive"
+                    } else {
+                        "while parsing a tag"
+                    },
+                    start_mark,
+                    "found an incorrect UTF-8 sequence",
+                );
+            }
+        }
         Ok(())
     }
 
-- 
2.43.0


From b3c5e946185328b331a20b0cfa274eedb9277d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:00 +0000
Subject: [PATCH 06/19] fix: end events that consume no token where they start,
 as libyaml does

---
 src/parser.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..d99cb0a 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -279,7 +279,7 @@ impl<R: BufRead> Parser<R> {
                     implicit: true,
                 },
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.process_directives(None, None)?;
             self.inner.states.push(ParserState::DocumentEnd);
@@ -632,7 +632,7 @@ impl<R: BufRead> Parser<R> {
             let event = Event {
                 data: EventData::SequenceEnd,
                 start_mark: token.start_mark,
-                end_mark: token.end_mark,
+                end_mark: token.start_mark,
             };
             self.inner.state = self.inner.states.pop().unwrap();
             Ok(event)
@@ -802,13 +802,13 @@ impl<R: BufRead> Parser<R> {
 
     fn parse_flow_sequence_entry_mapping_end(&mut self) -> Result<Event> {
         let token = self.scanner.peek()?;
-        let start_mark = token.start_mark;
-        let end_mark = token.end_mark;
+        // The mapping is not closed by a token of its own, so this event is empty.
+        let mark = token.start_mark;
         self.inner.state = ParserState::FlowSequenceEntry;
         Ok(Event {
             data: EventData::MappingEnd,
-            start_mark,
-            end_mark,
+            start_mark: mark,
+            end_mark: mark,
         })
     }
 
-- 
2.43.0


From 0a0ed3fb8ae2f112f7933ec92997abdd7fe2672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 07/19] fix: do not panic on a tag whose characters straddle
 the length of a tag prefix

---
 src/emitter.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..252aee9 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1129,11 +1129,13 @@ impl<'w> Emitter<'w> {
         let mut suffix = tag;
 
         for tag_directive in tag_directives {
-            let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
-                handle = &tag_directive.handle;
-                suffix = &tag[prefix_len..];
-                break;
+            match tag.strip_prefix(tag_directive.prefix.as_str()) {
+                Some(rest) if !rest.is_empty() => {
+                    handle = &tag_directive.handle;
+                    suffix = rest;
+                    break;
+                }
+                _ => {}
             }
         }
 
-- 
2.43.0


From 82eb3f84bbf5d2a7550f35e99d823c7375f451d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 08/19] fix: look at the first non-break character after a line
 break in a folded scalar

---
 src/emitter.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 252aee9..d75ee0c 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1736,9 +1736,8 @@ impl<'w> Emitter<'w> {
         while let Some(ch) = chars.next() {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
-                    let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let next_non_break = chars.clone().find(|&ch| !is_break(ch));
+                    if !is_blankz(next_non_break) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From d4f2b36169459cc066c3c5158c4977797bdb21eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 09/19] fix: recognize the byte order mark by its code point

---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 6c6c300e243302486fdfa668ce8a499285b381e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:39 +0000
Subject: [PATCH 10/19] fix: consume UTF-16 input in bytes, and decode
 surrogates that the buffer splits

---
 src/reader.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..29a8bc1 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,7 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +193,8 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From 7ef9b41ffb47e223d5b4625f2f6f08c9a3de4bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:40 +0000
Subject: [PATCH 11/19] fix: report input that ends within a character as a
 reader error, not an I/O error

---
 src/reader.rs | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 29a8bc1..d422194 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -106,9 +106,9 @@ fn read_utf8_buffered(
                         // The beginning of the buffer was an incomplete UTF-8
                         // sequence. Read the whole character unbuffered.
                         //
-                        // This will return `UnexpectedEof` if the sequence
-                        // cannot be completed. Note that `read_exact()` handles
-                        // interrupt automatically.
+                        // This will return a reader error if the sequence
+                        // cannot be completed, and handles interrupt
+                        // automatically.
                         let initial = available[0];
                         read_utf8_char_unbuffered(reader, out, initial, offset)?;
                         Ok(true)
@@ -119,6 +119,26 @@ fn read_utf8_buffered(
     }
 }
 
+/// Like `read_exact()`, but reaching the end of the input is a reader error, as
+/// it is in libyaml, rather than an I/O error.
+fn read_exact_or_incomplete(
+    reader: &mut dyn BufRead,
+    buffer: &mut [u8],
+    problem: &'static str,
+    offset: usize,
+) -> Result<()> {
+    let mut filled = 0;
+    while filled < buffer.len() {
+        match reader.read(&mut buffer[filled..]) {
+            Ok(0) => return Err(Error::reader(problem, offset, -1)),
+            Ok(n) => filled += n,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    }
+    Ok(())
+}
+
 fn read_utf8_char_unbuffered(
     reader: &mut dyn BufRead,
     out: &mut VecDeque<char>,
@@ -127,7 +147,12 @@ fn read_utf8_char_unbuffered(
 ) -> Result<()> {
     let width = utf8_char_width(initial);
     let mut buffer = [0; 4];
-    reader.read_exact(&mut buffer[..width])?;
+    read_exact_or_incomplete(
+        reader,
+        &mut buffer[..width],
+        "incomplete UTF-8 octet sequence",
+        *offset,
+    )?;
     if let Ok(valid) = core::str::from_utf8(&buffer[..width]) {
         // We read a whole, valid character.
         let ch = match valid.chars().next() {
@@ -206,7 +231,12 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     offset: &mut usize,
 ) -> Result<()> {
     let mut buffer = [0; 2];
-    reader.read_exact(&mut buffer)?;
+    read_exact_or_incomplete(
+        reader,
+        &mut buffer,
+        "incomplete UTF-16 character",
+        *offset,
+    )?;
     let first = if BIG_ENDIAN {
         u16::from_be_bytes(buffer)
     } else {
@@ -214,7 +244,12 @@ fn read_utf16_char_unbuffered<const BIG_ENDIAN: bool>(
     };
 
     if is_utf16_surrogate(first) {
-        reader.read_exact(&mut buffer)?;
+        read_exact_or_incomplete(
+            reader,
+            &mut buffer,
+            "incomplete UTF-16 surrogate pair",
+            *offset,
+        )?;
         let second = if BIG_ENDIAN {
             u16::from_be_bytes(buffer)
         } else {
-- 
2.43.0


From 18e760d94bd0ffcb3a56e6455bec14a62e5d8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 12/19] fix: accept UTF-8 input whose first byte is 0xEF, and
 report UTF-8 for empty input

---
 src/reader.rs | 54 ++++++++++++++++++++++++++-------------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index d422194..653c660 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,37 +4,43 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Encoding> {
+    let initial_bytes = loop {
+        match reader.fill_buf() {
+            // Like libyaml, assume UTF-8 for empty inputs.
+            Ok([]) => return Ok(Encoding::Utf8),
+            Ok(available) => break available,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
     match initial_bytes[0] {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // Either a byte order mark or some other character that is encoded
+            // as three bytes. The buffer may contain only a part of it.
+            let mut first = VecDeque::with_capacity(1);
+            read_utf8_char_unbuffered(reader, &mut first, 0xef, offset)?;
+            if first.front().copied() != Some('\u{feff}') {
+                out.append(&mut first);
             }
+            Ok(Encoding::Utf8)
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
-            reader.read_exact(&mut bom)?;
+            read_exact_or_incomplete(reader, &mut bom, "invalid byte order marker", *offset)?;
+            *offset += bom.len();
             if bom == BOM_UTF16LE {
-                Ok(Some(Encoding::Utf16Le))
+                Ok(Encoding::Utf16Le)
             } else if bom == BOM_UTF16BE {
-                Ok(Some(Encoding::Utf16Be))
+                Ok(Encoding::Utf16Be)
             } else {
                 Err(Error::reader(
                     "invalid byte order marker",
@@ -43,7 +49,7 @@ fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Enc
                 ))
             }
         }
-        _ => Ok(Some(Encoding::Utf8)),
+        _ => Ok(Encoding::Utf8),
     }
 }
 
@@ -328,12 +334,8 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
-            parser.encoding = encoding;
-        } else {
-            parser.eof = true;
-            return Ok(());
-        }
+        parser.encoding =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?;
     }
 
     while parser.buffer.len() < length {
-- 
2.43.0


From eb16aacfc98876927702b4fbf6fb1b6a431c7801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:25 +0000
Subject: [PATCH 13/19] fix: produce nothing more after an error, as libyaml
 does, instead of panicking or looping

---
 src/document.rs | 9 ++++++++-
 src/parser.rs   | 7 ++++++-
 src/scanner.rs  | 6 +++++-
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..a071e0f 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,7 +2,7 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result, ScalarStyle,
     SequenceStyle, TagDirective, VersionDirective,
 };
 
@@ -258,6 +258,11 @@ impl Document {
                     data: EventData::StreamStart { .. },
                     ..
                 }) => (),
+                // A previous call failed before the start of the stream.
+                Ok(Event {
+                    data: EventData::StreamEnd,
+                    ..
+                }) => return Ok(document),
                 Ok(_) => panic!("expected stream start"),
                 Err(err) => {
                     parser.inner.delete_aliases();
@@ -286,6 +291,8 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        // The rest of a document that could not be composed is not a document.
+        parser.inner.state = ParserState::End;
         Err(err)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index d99cb0a..43c357e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // Like libyaml, produce nothing more after an error.
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
diff --git a/src/scanner.rs b/src/scanner.rs
index 779d328..eaef488 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -203,7 +203,11 @@ impl<R: BufRead> Scanner<R> {
             });
         }
         if !self.token_available {
-            self.fetch_more_tokens()?;
+            if let Err(err) = self.fetch_more_tokens() {
+                // Like libyaml, produce nothing more after an error.
+                self.stream_end_produced = true;
+                return Err(err);
+            }
         }
         if let Some(token) = self.tokens.pop_front() {
             self.token_available = false;
-- 
2.43.0


From 316c6ac73d5a5696e742964c17b7ae0d160a84d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:44 +0000
Subject: [PATCH 14/19] fix: return None for node id 0, which no node has,
 instead of overflowing

---
 src/document.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index a071e0f..2abd37d 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,14 +108,14 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
-        self.nodes.get_mut(index as usize - 1)
+        self.nodes.get_mut((index as usize).wrapping_sub(1))
     }
 
     /// Get a node of a YAML document.
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
-        self.nodes.get(index as usize - 1)
+        self.nodes.get((index as usize).wrapping_sub(1))
     }
 
     /// Get the root of a YAML document node.
-- 
2.43.0


From f8f4a0f4a7e6f848092f5d8c89b8c44113565ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:23 +0000
Subject: [PATCH 15/19] fix: give an anchor to every node that is used more
 than once, at any depth

Document::dump() only counted references from the root and its children, and
panicked on a node first shared further down.
---
 src/document.rs | 34 ++++++++++++++++++----------------
 src/emitter.rs  |  8 --------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 2abd37d..ea91762 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -607,26 +607,28 @@ impl Document {
     }
 
     fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
-        let node = &self.nodes[index as usize - 1];
-        emitter.anchors[index as usize - 1].references += 1;
-        if emitter.anchors[index as usize - 1].references == 1 {
-            match &node.data {
-                NodeData::Sequence { items, .. } => {
-                    for item in items {
-                        emitter.anchor_node_sub(*item);
+        // Visit the nodes in document order, descending into each of them once.
+        let mut pending = vec![index];
+        while let Some(index) = pending.pop() {
+            let anchors = &mut emitter.anchors[index as usize - 1];
+            anchors.references += 1;
+            if anchors.references == 1 {
+                match &self.nodes[index as usize - 1].data {
+                    NodeData::Sequence { items, .. } => {
+                        pending.extend(items.iter().rev());
                     }
-                }
-                NodeData::Mapping { pairs, .. } => {
-                    for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                    NodeData::Mapping { pairs, .. } => {
+                        for pair in pairs.iter().rev() {
+                            pending.push(pair.value);
+                            pending.push(pair.key);
+                        }
                     }
+                    _ => {}
                 }
-                _ => {}
+            } else if anchors.references == 2 {
+                emitter.last_anchor_id += 1;
+                anchors.anchor = emitter.last_anchor_id;
             }
-        } else if emitter.anchors[index as usize - 1].references == 2 {
-            emitter.last_anchor_id += 1;
-            emitter.anchors[index as usize - 1].anchor = emitter.last_anchor_id;
         }
     }
 
diff --git a/src/emitter.rs b/src/emitter.rs
index d75ee0c..6e00dd2 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1817,14 +1817,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From 1e1051ea1a3627c6c0a0be62fc9e2cc69e0d7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 16/19] fix: dump deeply nested documents without overflowing
 the call stack

Also forget the anchors of a document that could not be dumped, as libyaml does.
---
 src/document.rs | 93 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 62 insertions(+), 31 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index ea91762..c8118c9 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -82,6 +82,16 @@ pub struct NodePair {
     pub value: i32,
 }
 
+/// What is left to dump of a document.
+enum DumpStep {
+    /// A node and everything below it.
+    Node(i32),
+    /// The end of a sequence.
+    SequenceEnd,
+    /// The end of a mapping.
+    MappingEnd,
+}
+
 impl Document {
     /// Create a YAML document.
     pub fn new(
@@ -582,28 +592,32 @@ impl Document {
                 return Err(err);
             }
         }
-        if self.nodes.is_empty() {
+        let result = if self.nodes.is_empty() {
             // TODO: Do we really want to close the emitter just because the
             // document contains no nodes? Isn't it OK to emit multiple documents in
             // the same stream?
-            emitter.close()?;
+            emitter.close()
         } else {
-            assert!(emitter.opened);
-            emitter.anchors = vec![Anchors::default(); self.nodes.len()];
-            let event = Event::new(EventData::DocumentStart {
-                version_directive: self.version_directive,
-                tag_directives: core::mem::take(&mut self.tag_directives),
-                implicit: self.start_implicit,
-            });
-            emitter.emit(event)?;
-            self.anchor_node(emitter, 1);
-            self.dump_node(emitter, 1)?;
-            let event = Event::document_end(self.end_implicit);
-            emitter.emit(event)?;
-        }
+            self.dump_document(emitter)
+        };
 
         emitter.reset_anchors();
-        Ok(())
+        result
+    }
+
+    fn dump_document(&mut self, emitter: &mut Emitter) -> Result<()> {
+        assert!(emitter.opened);
+        emitter.anchors = vec![Anchors::default(); self.nodes.len()];
+        let event = Event::new(EventData::DocumentStart {
+            version_directive: self.version_directive,
+            tag_directives: core::mem::take(&mut self.tag_directives),
+            implicit: self.start_implicit,
+        });
+        emitter.emit(event)?;
+        self.anchor_node(emitter, 1);
+        self.dump_nodes(emitter, 1)?;
+        let event = Event::document_end(self.end_implicit);
+        emitter.emit(event)
     }
 
     fn anchor_node(&self, emitter: &mut Emitter, index: i32) {
@@ -632,7 +646,28 @@ impl Document {
         }
     }
 
-    fn dump_node(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
+    /// Dump a node and everything below it.
+    ///
+    /// This keeps its own stack, because documents may be nested more deeply
+    /// than the call stack allows for.
+    fn dump_nodes(&mut self, emitter: &mut Emitter, index: i32) -> Result<()> {
+        let mut pending = vec![DumpStep::Node(index)];
+        while let Some(step) = pending.pop() {
+            match step {
+                DumpStep::Node(index) => self.dump_node(emitter, index, &mut pending)?,
+                DumpStep::SequenceEnd => emitter.emit(Event::sequence_end())?,
+                DumpStep::MappingEnd => emitter.emit(Event::mapping_end())?,
+            }
+        }
+        Ok(())
+    }
+
+    fn dump_node(
+        &mut self,
+        emitter: &mut Emitter,
+        index: i32,
+        pending: &mut Vec<DumpStep>,
+    ) -> Result<()> {
         assert!(index > 0);
         let node = &mut self.nodes[index as usize - 1];
         let anchor_id: i32 = emitter.anchors[index as usize - 1].anchor;
@@ -648,8 +683,8 @@ impl Document {
         let node = core::mem::take(node);
         match node.data {
             NodeData::Scalar { .. } => Self::dump_scalar(emitter, node, anchor),
-            NodeData::Sequence { .. } => self.dump_sequence(emitter, node, anchor),
-            NodeData::Mapping { .. } => self.dump_mapping(emitter, node, anchor),
+            NodeData::Sequence { .. } => Self::dump_sequence(emitter, node, anchor, pending),
+            NodeData::Mapping { .. } => Self::dump_mapping(emitter, node, anchor, pending),
             _ => unreachable!("document node is neither a scalar, sequence, or a mapping"),
         }
     }
@@ -679,10 +714,10 @@ impl Document {
     }
 
     fn dump_sequence(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_SEQUENCE_TAG);
 
@@ -697,19 +732,16 @@ impl Document {
             style,
         });
 
-        emitter.emit(event)?;
-        for item in items {
-            self.dump_node(emitter, item)?;
-        }
-        let event = Event::sequence_end();
+        pending.push(DumpStep::SequenceEnd);
+        pending.extend(items.into_iter().rev().map(DumpStep::Node));
         emitter.emit(event)
     }
 
     fn dump_mapping(
-        &mut self,
         emitter: &mut Emitter,
         node: Node,
         anchor: Option<String>,
+        pending: &mut Vec<DumpStep>,
     ) -> Result<()> {
         let implicit = node.tag.as_deref() == Some(DEFAULT_MAPPING_TAG);
 
@@ -724,12 +756,11 @@ impl Document {
             style,
         });
 
-        emitter.emit(event)?;
-        for pair in pairs {
-            self.dump_node(emitter, pair.key)?;
-            self.dump_node(emitter, pair.value)?;
+        pending.push(DumpStep::MappingEnd);
+        for pair in pairs.into_iter().rev() {
+            pending.push(DumpStep::Node(pair.value));
+            pending.push(DumpStep::Node(pair.key));
         }
-        let event = Event::mapping_end();
         emitter.emit(event)
     }
 }
-- 
2.43.0


From 33496c0fa00eadbd806fd2a41ae111c00c767d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:45 +0000
Subject: [PATCH 17/19] fix: report an error in the token after a tag and an
 anchor before an undefined tag handle

---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index 43c357e..ef2fe03 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -424,6 +424,9 @@ impl<R: BufRead> Parser<R> {
             }
         }
 
+        // Like libyaml, find errors in the next token before those in the tag.
+        self.scanner.peek()?;
+
         if let Some(ref tag_handle_value) = tag_handle {
             if tag_handle_value.is_empty() {
                 tag = tag_suffix;
-- 
2.43.0


From b5750a1dca3ea94c03b4dc55624292269b2b57df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 18/19] fix: refuse further events after an emitter error
 instead of panicking

---
 src/emitter.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index 6e00dd2..e1643c7 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -78,6 +78,8 @@ pub struct Emitter<'w> {
     pub(crate) anchors: Vec<Anchors>,
     /// The last assigned anchor id.
     pub(crate) last_anchor_id: i32,
+    /// The problem that a previous event ended in, if any.
+    pub(crate) failed: Option<&'static str>,
 }
 
 impl Default for Emitter<'_> {
@@ -206,6 +208,7 @@ impl<'w> Emitter<'w> {
             closed: false,
             anchors: Vec::new(),
             last_anchor_id: 0,
+            failed: None,
         }
     }
 
@@ -299,7 +302,20 @@ impl<'w> Emitter<'w> {
     /// [`Parser::parse()`](crate::Parser::parse) function. The emitter takes
     /// the responsibility for the event object and destroys its content after
     /// it is emitted. The event object is destroyed even if the function fails.
+    ///
+    /// After an error, the emitter accepts no more events.
     pub fn emit(&mut self, event: Event) -> Result<()> {
+        if let Some(problem) = self.failed {
+            return Err(Error::emitter(problem));
+        }
+        let result = self.emit_event(event);
+        if let Err(err) = &result {
+            self.failed = Some(err.problem());
+        }
+        result
+    }
+
+    fn emit_event(&mut self, event: Event) -> Result<()> {
         self.events.push_back(event);
         while let Some(event) = self.needs_mode_events() {
             let tag_directives = core::mem::take(&mut self.tag_directives);
-- 
2.43.0


From 2bc008b54436a6b26dc39a74a3ac30676a050f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:20 +0000
Subject: [PATCH 19/19] fix: do not write output twice when flushing again
 after a failed write

---
 src/emitter.rs | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index e1643c7..069d789 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -25,6 +25,8 @@ pub struct Emitter<'w> {
     /// This contains the output in the encoded format, so for example it may be
     /// UTF-16 encoded.
     pub(crate) raw_buffer: Vec<u8>,
+    /// How many bytes of the pending output were written before a write failed.
+    pub(crate) written: usize,
     /// The stream encoding.
     pub(crate) encoding: Encoding,
     /// If the output is in the canonical style?
@@ -182,6 +184,7 @@ impl<'w> Emitter<'w> {
             write_handler: None,
             buffer: String::with_capacity(OUTPUT_BUFFER_SIZE),
             raw_buffer: Vec::with_capacity(OUTPUT_BUFFER_SIZE),
+            written: 0,
             encoding: Encoding::Any,
             canonical: false,
             best_indent: 0,
@@ -1786,16 +1789,8 @@ impl<'w> Emitter<'w> {
         assert!((self.write_handler).is_some());
         assert_ne!(self.encoding, Encoding::Any);
 
-        if self.buffer.is_empty() {
-            return Ok(());
-        }
-
         if self.encoding == Encoding::Utf8 {
-            let to_emit = self.buffer.as_bytes();
-            self.write_handler
-                .as_mut()
-                .expect("non-null writer")
-                .write_all(to_emit)?;
+            self.write_pending()?;
             self.buffer.clear();
             return Ok(());
         }
@@ -1816,18 +1811,34 @@ impl<'w> Emitter<'w> {
             };
             self.raw_buffer.extend(bytes);
         }
-
-        let to_emit = self.raw_buffer.as_slice();
-
-        self.write_handler
-            .as_mut()
-            .expect("non-null function pointer")
-            .write_all(to_emit)?;
         self.buffer.clear();
+
+        self.write_pending()?;
         self.raw_buffer.clear();
         Ok(())
     }
 
+    /// Like `write_all()`, but when a write has failed, the next attempt goes
+    /// on after what the writer took, instead of writing it again.
+    fn write_pending(&mut self) -> Result<()> {
+        let pending = if self.encoding == Encoding::Utf8 {
+            self.buffer.as_bytes()
+        } else {
+            self.raw_buffer.as_slice()
+        };
+        let writer = self.write_handler.as_mut().expect("non-null writer");
+        while self.written < pending.len() {
+            match writer.write(&pending[self.written..]) {
+                Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::WriteZero).into()),
+                Ok(n) => self.written += n,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+                Err(err) => return Err(err.into()),
+            }
+        }
+        self.written = 0;
+        Ok(())
+    }
+
     pub(crate) fn reset_anchors(&mut self) {
         self.anchors.clear();
         self.last_anchor_id = 0;
-- 
2.43.0

