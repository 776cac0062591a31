From 98a527d054788695830b1c79b3e26998e4591126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 01/34] fix: keep document directives and the document start
 marker when writing

---
 src/yaml/parsing.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 836afb1..c4603fe 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -126,20 +126,23 @@ impl<'a> Parser<'a> {
     /// Process document delimiter.
     ///
     /// This is a `---` that is allowed to exist at the beginning of the document.
+    ///
+    /// Everything up until the first value is kept in the returned prefix.
     fn start_of_document(&mut self) -> StringId {
-        let mut prefix = self.ws();
+        let start = self.n;
+        self.ws();
 
         loop {
             match self.peek() {
                 // Process headers.
                 [b'%', _, _] => {
                     self.find(raw::NEWLINE);
-                    prefix = self.ws();
+                    self.ws();
                 }
                 // Process start-of-document.
                 [b'-', b'-', b'-'] => {
                     self.bump(3);
-                    prefix = self.ws();
+                    self.ws();
                     break;
                 }
                 _ => {
@@ -148,7 +151,7 @@ impl<'a> Parser<'a> {
             }
         }
 
-        prefix
+        self.data.insert_str(self.string(start))
     }
 
     /// Test if eof.
-- 
2.43.0


From e32f007e8a364b890b6f8bd8b36bb1d1ccc34379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:44 +0000
Subject: [PATCH 02/34] fix: keep whitespace before separators and require
 separators in inline collections

---
 src/yaml/mapping/mapping_mut.rs   | 10 ++++-
 src/yaml/parsing.rs               | 65 ++++++++++++++++++-------------
 src/yaml/raw.rs                   | 26 +++++++++++++
 src/yaml/sequence/sequence_mut.rs |  9 ++++-
 4 files changed, 80 insertions(+), 30 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1d4654..9c63793 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -198,8 +198,14 @@ impl<'a> MappingMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::MappingItem(raw::MappingItem { key, value }));
+        self.data.replace(
+            item_id,
+            Raw::MappingItem(raw::MappingItem {
+                key,
+                value,
+                suffix: None,
+            }),
+        );
 
         self.data.mapping_mut(self.id).items.push(item_id);
         value
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index c4603fe..5534cbf 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -500,7 +500,6 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut item_prefix = self.ws();
 
@@ -512,23 +511,24 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
-
             items.push(item_id);
 
-            if last {
-                item_prefix = next_prefix.unwrap_or_else(|| self.ws());
-                break;
-            }
+            let ws = next_prefix.unwrap_or_else(|| self.ws());
+            let separated = matches!(self.peek1(), b',');
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
+            // Whitespace in front of a separator belongs to the item.
+            let suffix = separated.then_some(ws);
+            self.data
+                .replace(item_id, raw::SequenceItem { value, suffix });
+
+            if !separated {
+                item_prefix = ws;
+                break;
             }
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            self.bump(1);
+            trailing = true;
+            item_prefix = self.ws();
         }
 
         if !matches!(self.peek1(), b']') {
@@ -561,7 +561,6 @@ impl<'a> Parser<'a> {
         self.bump(1);
 
         let mut items = Vec::new();
-        let mut last = false;
         let mut trailing = false;
         let mut start = self.n;
         let mut item_prefix = self.ws();
@@ -579,22 +578,23 @@ impl<'a> Parser<'a> {
             let (value, next_prefix) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_inline())?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
             items.push(item_id);
 
-            item_prefix = next_prefix.unwrap_or_else(|| self.ws());
+            let ws = next_prefix.unwrap_or_else(|| self.ws());
+            let separated = matches!(self.peek1(), b',');
 
-            if last {
-                break;
-            }
+            // Whitespace in front of a separator belongs to the item.
+            let suffix = separated.then_some(ws);
+            self.data
+                .replace(item_id, raw::MappingItem { key, value, suffix });
 
-            if matches!(self.peek1(), b',') {
-                self.bump(1);
-                trailing = true;
-            } else {
-                last = true;
+            if !separated {
+                item_prefix = ws;
+                break;
             }
 
+            self.bump(1);
+            trailing = true;
             start = self.n;
             item_prefix = self.ws();
         }
@@ -639,7 +639,13 @@ impl<'a> Parser<'a> {
             let (value, ws) =
                 self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
 
-            self.data.replace(item_id, raw::SequenceItem { value });
+            self.data.replace(
+                item_id,
+                raw::SequenceItem {
+                    value,
+                    suffix: None,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
@@ -708,7 +714,14 @@ impl<'a> Parser<'a> {
                     .with_parent_indent(indent),
             )?;
 
-            self.data.replace(item_id, raw::MappingItem { key, value });
+            self.data.replace(
+                item_id,
+                raw::MappingItem {
+                    key,
+                    value,
+                    suffix: None,
+                },
+            );
             items.push(item_id);
 
             let ws = ws.unwrap_or_else(|| self.ws());
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 25ebc81..4409824 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -834,11 +834,19 @@ impl Sequence {
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct SequenceItem {
     pub(crate) value: Id,
+    /// Whitespace between the item and its separator in an inline collection.
+    #[cfg_attr(feature = "serde-edits", serde(default))]
+    pub(crate) suffix: Option<StringId>,
 }
 
 impl SequenceItem {
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         data.raw(self.value).display(data, f, Some(self.value))?;
+
+        if let Some(suffix) = self.suffix {
+            write!(f, "{}", data.str(suffix))?;
+        }
+
         Ok(())
     }
 
@@ -848,6 +856,11 @@ impl SequenceItem {
     {
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+
+        if let Some(suffix) = self.suffix {
+            o.write_all(data.str(suffix))?;
+        }
+
         Ok(())
     }
 }
@@ -973,6 +986,9 @@ impl Mapping {
 pub(crate) struct MappingItem {
     pub(crate) key: String,
     pub(crate) value: Id,
+    /// Whitespace between the item and its separator in an inline collection.
+    #[cfg_attr(feature = "serde-edits", serde(default))]
+    pub(crate) suffix: Option<StringId>,
 }
 
 impl MappingItem {
@@ -980,6 +996,11 @@ impl MappingItem {
         self.key.display(data, f)?;
         write!(f, ":")?;
         data.raw(self.value).display(data, f, Some(self.value))?;
+
+        if let Some(suffix) = self.suffix {
+            write!(f, "{}", data.str(suffix))?;
+        }
+
         Ok(())
     }
 
@@ -991,6 +1012,11 @@ impl MappingItem {
         write!(o, ":")?;
         o.write_all(data.prefix(self.value))?;
         data.raw(self.value).write_to(data, o)?;
+
+        if let Some(suffix) = self.suffix {
+            o.write_all(data.str(suffix))?;
+        }
+
         Ok(())
     }
 }
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index c4397c6..cf07745 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -127,8 +127,13 @@ impl<'a> SequenceMut<'a> {
 
         let value = self.data.insert(value, value_prefix, Some(item_id));
 
-        self.data
-            .replace(item_id, Raw::SequenceItem(raw::SequenceItem { value }));
+        self.data.replace(
+            item_id,
+            Raw::SequenceItem(raw::SequenceItem {
+                value,
+                suffix: None,
+            }),
+        );
         self.data.sequence_mut(self.id).items.push(item_id);
         value
     }
-- 
2.43.0


From 61262b20c2b4c9d701ad5e2f6939398c8706306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 03/34] fix: stop at end of input inside an unterminated
 single-quoted string

---
 src/yaml/parsing.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 5534cbf..c87f3b4 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -330,6 +330,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 _ => {
                     self.bump(1);
                 }
@@ -356,6 +359,9 @@ impl<'a> Parser<'a> {
                 [b'\'', _] => {
                     break;
                 }
+                _ if self.is_eof() => {
+                    break;
+                }
                 [b, _] => {
                     self.bump(1);
                     self.scratch.push(b);
-- 
2.43.0


From f1e6a6928e070a6bb5d9f8c90fb72ec3b2b48813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:22 +0000
Subject: [PATCH 04/34] fix: escape backslashes and unprintable characters in
 double-quoted strings

---
 src/yaml/parsing.rs |  1 +
 src/yaml/raw.rs     | 55 ++++++++++++++++++++++++++++++++-------------
 2 files changed, 40 insertions(+), 16 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index c87f3b4..d5c8bad 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -452,6 +452,7 @@ impl<'a> Parser<'a> {
             b'r' => b'\r',
             b'e' => b'\x1b',
             b'\\' => b'\"',
+            b'"' => b'"',
             b'x' => {
                 self.bump(1);
                 return self.unescape_unicode(start, 2, ErrorKind::BadHexEscape);
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 4409824..1610332 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -497,7 +497,7 @@ impl RawStringKind {
                 ':' => {
                     kind = RawStringKind::Single;
                 }
-                b if b.is_control() => {
+                b if is_unprintable(b) => {
                     return RawStringKind::Double;
                 }
                 _ => {}
@@ -520,6 +520,16 @@ pub(crate) struct String {
     pub(crate) original: StringId,
 }
 
+/// Test for characters outside of ascii which have to be escaped since YAML
+/// doesn't treat them as printable, or treats them as line breaks.
+fn is_unprintable(c: char) -> bool {
+    c.is_control()
+        || matches!(
+            c,
+            '\u{2028}' | '\u{2029}' | '\u{feff}' | '\u{fffe}' | '\u{ffff}'
+        )
+}
+
 impl String {
     /// A simple number.
     pub(crate) fn new(kind: RawStringKind, id: StringId, original: StringId) -> Self {
@@ -566,11 +576,17 @@ impl String {
                     '\r' => "\\r",
                     '\u{1b}' => "\\e",
                     '\"' => "\\\"",
+                    '\\' => "\\x5c",
                     c if c.is_ascii_control() => {
                         write!(f, "{}\\x{:02x}", &string[start..index], c as u8)?;
                         start = end;
                         continue;
                     }
+                    c if is_unprintable(c) => {
+                        write!(f, "{}\\u{:04x}", &string[start..index], c as u32)?;
+                        start = end;
+                        continue;
+                    }
                     _ => {
                         continue;
                     }
@@ -647,22 +663,29 @@ impl String {
             o.write_all(b"\"")?;
             let mut s = 0;
 
-            for (index, b) in string.bytes().enumerate() {
-                let esc = match b {
-                    b'\0' => b"\\0",
-                    0x07 => b"\\a",
-                    0x08 => b"\\b",
-                    0x09 => b"\\t",
-                    b'\n' => b"\\n",
-                    0x0b => b"\\v",
-                    0x0c => b"\\f",
-                    b'\r' => b"\\r",
-                    0x1b => b"\\e",
-                    b'\"' => b"\\\"",
+            for (index, end, c) in string.char_indices() {
+                let esc: &[u8] = match c {
+                    '\0' => b"\\0",
+                    '\x07' => b"\\a",
+                    '\x08' => b"\\b",
+                    '\x09' => b"\\t",
+                    '\n' => b"\\n",
+                    '\x0b' => b"\\v",
+                    '\x0c' => b"\\f",
+                    '\r' => b"\\r",
+                    '\x1b' => b"\\e",
+                    '\"' => b"\\\"",
+                    '\\' => b"\\x5c",
                     c if c.is_ascii_control() => {
                         o.write_all(&string[s..index])?;
-                        write!(o, "\\x{c:02x}")?;
-                        s = index.saturating_add(1);
+                        write!(o, "\\x{:02x}", c as u8)?;
+                        s = end;
+                        continue;
+                    }
+                    c if is_unprintable(c) => {
+                        o.write_all(&string[s..index])?;
+                        write!(o, "\\u{:04x}", c as u32)?;
+                        s = end;
                         continue;
                     }
                     _ => {
@@ -672,7 +695,7 @@ impl String {
 
                 o.write_all(&string[s..index])?;
                 o.write_all(esc)?;
-                s = index.saturating_add(1);
+                s = end;
             }
 
             o.write_all(&string[s..])?;
-- 
2.43.0


From e0477ebd36202d1b58bd617b755841780e76ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:47 +0000
Subject: [PATCH 05/34] fix: only treat complete numbers as numbers

---
 src/yaml/parsing.rs | 43 ++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d5c8bad..ab655bd 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -252,6 +252,35 @@ impl<'a> Parser<'a> {
                 other_ws!() => {
                     n = n.wrapping_add(1);
                 }
+                // A comment has to be separated from what precedes it.
+                b'#' => {
+                    return n > self.n;
+                }
+                _ => {
+                    return false;
+                }
+            }
+        }
+
+        true
+    }
+
+    /// Test if current position contains nothing but whitespace until we reach
+    /// the end of an item in an inline collection.
+    fn is_inline_end(&self) -> bool {
+        let mut n = self.n;
+
+        while let Some(&b) = self.input.get(n) {
+            match b {
+                ws!() => {
+                    n = n.wrapping_add(1);
+                }
+                b',' | b']' | b'}' => {
+                    return true;
+                }
+                b'#' => {
+                    return n > self.n;
+                }
                 _ => {
                     return false;
                 }
@@ -273,7 +302,6 @@ impl<'a> Parser<'a> {
         let mut wants_dot = true;
         let mut wants_e = true;
         let mut has_number = false;
-        let mut any = false;
 
         loop {
             match self.peek1() {
@@ -285,6 +313,12 @@ impl<'a> Parser<'a> {
                     hint = serde_hint::F64;
                     wants_dot = false;
                     wants_e = false;
+                    // The exponent needs digits of its own.
+                    has_number = false;
+
+                    if matches!(self.peek(), [_, b'+' | b'-']) {
+                        self.bump(1);
+                    }
                 }
                 b'0'..=b'9' => {
                     has_number = true;
@@ -294,11 +328,10 @@ impl<'a> Parser<'a> {
                 }
             }
 
-            any = true;
             self.bump(1);
         }
 
-        if !any {
+        if !has_number {
             return None;
         }
 
@@ -306,6 +339,10 @@ impl<'a> Parser<'a> {
             return None;
         }
 
+        if s.inline && !self.is_inline_end() {
+            return None;
+        }
+
         let string = self.data.insert_str(self.string(start));
         Some(Raw::Number(raw::Number::new(string, hint)))
     }
-- 
2.43.0


From 1e726c9514d9bbc190fb70599a61625f42a74cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:44 +0000
Subject: [PATCH 06/34] fix: end plain scalars at comments and trailing
 whitespace

---
 src/yaml/parsing.rs | 57 +++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index ab655bd..d4552ea 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -12,13 +12,6 @@ type Result<T, E = Error> = std::result::Result<T, E>;
 
 const EOF: u8 = b'\0';
 
-/// Inline control characters which splits up data.
-macro_rules! ctl {
-    () => {
-        b',' | b':' | b']' | b'}' | EOF
-    };
-}
-
 /// Ascii whitespace matching.
 macro_rules! other_ws {
     ($($pat:pat_param)|*) => {
@@ -203,17 +196,6 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Find the given character.
-    fn find2(&mut self, a: u8, b: u8) {
-        let input = self.input.get(self.n..).unwrap_or_default();
-
-        if let Some(n) = memchr::memchr2(a, b, input) {
-            self.bump(n);
-        } else {
-            self.n = self.input.len();
-        }
-    }
-
     /// Consume whitespace.
     fn ws_nl(&mut self) -> (StringId, u32) {
         let start = self.n;
@@ -805,12 +787,14 @@ impl<'a> Parser<'a> {
 
     /// Process a key up until `:` or end of the current line.
     fn key_or_eol(&mut self, start: usize) -> Option<raw::String> {
-        loop {
-            self.find2(b':', raw::NEWLINE);
-
+        while !self.is_eof() {
             match self.peek() {
-                [raw::NEWLINE | EOF, _] => {
-                    return None;
+                [raw::NEWLINE, _] => {
+                    break;
+                }
+                // The rest of the line is a comment.
+                [other_ws!(), b'#'] => {
+                    break;
                 }
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
@@ -823,6 +807,16 @@ impl<'a> Parser<'a> {
                 }
             }
         }
+
+        self.trim_back(start);
+        None
+    }
+
+    /// Move the cursor back over any whitespace, but not past `start`.
+    fn trim_back(&mut self, start: usize) {
+        while self.n > start && matches!(self.input[self.n - 1], ws!()) {
+            self.n -= 1;
+        }
     }
 
     /// Process a key up until `:`.
@@ -955,16 +949,23 @@ impl<'a> Parser<'a> {
                     if s.inline {
                         // Seek until we find a control character, since we're
                         // simply treating the current segment as a string.
-                        while !matches!(self.peek1(), ctl!()) {
-                            self.bump(1);
+                        while !self.is_eof() {
+                            match self.peek() {
+                                [b',' | b']' | b'}', _] => break,
+                                [b':', ws!(b',' | b']' | b'}' | EOF)] => break,
+                                [ws!(), b'#'] => break,
+                                _ => self.bump(1),
+                            }
                         }
+
+                        self.trim_back(start);
                     } else if let Some(key) = self.key_or_eol(start) {
                         return self.mapping_or_nul(s, start, key);
                     }
 
-                    // NB: calling `key_or_eol` will have consumed up until end
-                    // of line for us, so use the current span as the production
-                    // string.
+                    // NB: calling `key_or_eol` will have consumed everything up
+                    // until the end of the scalar for us, so use the current
+                    // span as the production string.
                     let string = self.string(start);
                     (
                         if string == b"~" {
-- 
2.43.0


From 4ea7b98d503c4053dcfe385940a58ea974acec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:47 +0000
Subject: [PATCH 07/34] fix: read all keys of a mapping the same way, quoted or
 not

---
 src/yaml/parsing.rs | 126 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 95 insertions(+), 31 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index d4552ea..36de86e 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -594,7 +594,7 @@ impl<'a> Parser<'a> {
         while !matches!(self.peek1(), b'}' | EOF) {
             trailing = false;
 
-            let Some(key) = self.until_colon(self.n) else {
+            let Some(key) = self.inline_key()? else {
                 return Err(Error::new(start..self.n, ErrorKind::BadMappingSeparator));
             };
 
@@ -758,7 +758,7 @@ impl<'a> Parser<'a> {
             }
 
             start = self.n;
-            current_key = self.next_mapping_key();
+            current_key = self.next_mapping_key()?;
         }
 
         self.data.replace(
@@ -799,8 +799,7 @@ impl<'a> Parser<'a> {
                 // Only treat something as a key if it's a colon immediately
                 // followed by spacing.
                 [b':', ws!(EOF)] => {
-                    let key = self.data.insert_str(self.string(start));
-                    return Some(raw::String::new(raw::RawStringKind::Bare, key, key));
+                    return Some(self.bare_key(start));
                 }
                 _ => {
                     self.bump(1);
@@ -819,18 +818,75 @@ impl<'a> Parser<'a> {
         }
     }
 
-    /// Process a key up until `:`.
-    fn until_colon(&mut self, start: usize) -> Option<raw::String> {
-        while !matches!(self.peek1(), b':' | EOF) {
+    /// Process the key of an inline mapping, up until `:`.
+    fn inline_key(&mut self) -> Result<Option<raw::String>> {
+        let start = self.n;
+
+        let quoted = match self.peek1() {
+            b'"' => Some(self.double_quoted()?),
+            b'\'' => Some(self.single_quoted()),
+            _ => None,
+        };
+
+        if let Some(string) = quoted {
+            return Ok(self.quoted_key(start, string));
+        }
+
+        let mut colon = None;
+
+        while !self.is_eof() {
+            match self.peek() {
+                [b',' | b'[' | b']' | b'{' | b'}', _] => break,
+                [b':', ws!(b',' | b']' | b'}' | EOF)] => {
+                    return Ok(Some(self.bare_key(start)));
+                }
+                [b':', _] => {
+                    colon = colon.or(Some(self.n));
+                    self.bump(1);
+                }
+                _ => self.bump(1),
+            }
+        }
+
+        // There is no colon followed by spacing, so use the first one.
+        let Some(colon) = colon else {
+            return Ok(None);
+        };
+
+        self.n = colon;
+        Ok(Some(self.bare_key(start)))
+    }
+
+    /// Construct a bare key, whitespace in front of the `:` is not a part of it.
+    fn bare_key(&mut self, start: usize) -> raw::String {
+        let end = self.n;
+        let original = self.data.insert_str(self.string(start));
+        self.trim_back(start);
+        let string = self.data.insert_str(self.string(start));
+        self.n = end;
+
+        if string == original {
+            raw::String::new(raw::RawStringKind::Bare, string, original)
+        } else {
+            raw::String::new(raw::RawStringKind::Original, string, original)
+        }
+    }
+
+    /// Treat a quoted string as a key if it is followed by a `:`.
+    fn quoted_key(&mut self, start: usize, mut string: raw::String) -> Option<raw::String> {
+        let end = self.n;
+
+        while matches!(self.peek1(), other_ws!()) {
             self.bump(1);
         }
 
-        if self.is_eof() {
+        if !matches!(self.peek1(), b':') {
+            self.n = end;
             return None;
         }
 
-        let key = self.data.insert_str(self.string(start));
-        Some(raw::String::new(raw::RawStringKind::Bare, key, key))
+        string.original = self.data.insert_str(self.string(start));
+        Some(string)
     }
 
     /// Process a block as a string.
@@ -913,8 +969,10 @@ impl<'a> Parser<'a> {
                 let start = self.n;
                 let string = self.double_quoted()?;
 
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
+                if !s.inline {
+                    if let Some(key) = self.quoted_key(start, string.clone()) {
+                        return self.mapping_or_nul(s, start, key);
+                    }
                 }
 
                 (Raw::String(string), None)
@@ -923,8 +981,10 @@ impl<'a> Parser<'a> {
                 let start = self.n;
                 let string = self.single_quoted();
 
-                if !s.inline && self.peek1() == b':' {
-                    return self.mapping_or_nul(s, start, string);
+                if !s.inline {
+                    if let Some(key) = self.quoted_key(start, string.clone()) {
+                        return self.mapping_or_nul(s, start, key);
+                    }
                 }
 
                 (Raw::String(string), None)
@@ -991,27 +1051,31 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse next mapping key.
-    fn next_mapping_key(&mut self) -> Option<raw::String> {
+    fn next_mapping_key(&mut self) -> Result<Option<raw::String>> {
         let start = self.n;
 
-        let string = loop {
-            match self.peek1() {
-                b':' | EOF => {
-                    let string = self.string(start);
+        let quoted = match self.peek1() {
+            b'"' => Some(self.double_quoted()?),
+            b'\'' => Some(self.single_quoted()),
+            _ => None,
+        };
 
-                    if string.is_empty() {
-                        return None;
-                    }
+        if let Some(string) = quoted {
+            return Ok(Some(
+                self.quoted_key(start, string.clone()).unwrap_or(string),
+            ));
+        }
 
-                    break string;
-                }
-                _ => {
-                    self.bump(1);
-                }
-            }
-        };
+        if let Some(key) = self.key_or_eol(start) {
+            return Ok(Some(key));
+        }
+
+        if self.n == start {
+            return Ok(None);
+        }
 
-        let string = self.data.insert_str(string);
-        Some(raw::String::new(raw::RawStringKind::Bare, string, string))
+        // NB: the missing `:` is reported when the key is used.
+        self.find(raw::NEWLINE);
+        Ok(Some(self.bare_key(start)))
     }
 }
-- 
2.43.0


From f2a43861d9055ab63c94c409635a6ba5c78da915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 08/34] fix: write the same bytes through Document::write_to as
 through Display

---
 src/yaml/document.rs |  4 +++-
 src/yaml/raw.rs      | 25 +++++++++++++++++++------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 85c7dde..4a680c1 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -268,7 +268,9 @@ impl Document {
         O: io::Write,
     {
         output.write_all(self.data.prefix(self.root))?;
-        self.data.raw(self.root).write_to(&self.data, &mut output)?;
+        self.data
+            .raw(self.root)
+            .write_to(&self.data, &mut output, None)?;
         output.write_all(self.data.str(self.suffix))?;
         Ok(())
     }
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 1610332..38cc661 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -274,10 +274,15 @@ impl Raw {
         Ok(())
     }
 
-    pub(crate) fn write_to<O>(&self, data: &Data, o: &mut O) -> io::Result<()>
+    pub(crate) fn write_to<O>(&self, data: &Data, o: &mut O, prefix: Option<Id>) -> io::Result<()>
     where
         O: ?Sized + io::Write,
     {
+        // NB: anything which is written as nothing does not have a prefix.
+        if let (Some(id), false) = (prefix, self.is_blank()) {
+            o.write_all(data.prefix(id))?;
+        }
+
         match self {
             Raw::Null(raw) => {
                 raw.write_to(data, o)?;
@@ -308,6 +313,16 @@ impl Raw {
         Ok(())
     }
 
+    /// Test if there is nothing to write for the value.
+    fn is_blank(&self) -> bool {
+        match self {
+            Raw::Null(Null::Empty) => true,
+            Raw::Mapping(raw) => self.is_tabular() && raw.items.is_empty(),
+            Raw::Sequence(raw) => self.is_tabular() && raw.items.is_empty(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
@@ -824,7 +839,7 @@ impl Sequence {
         let mut it = self.items.iter().peekable();
 
         while let Some(item) = it.next() {
-            write!(o, "{}", data.prefix(*item))?;
+            o.write_all(data.prefix(*item))?;
 
             if let SequenceKind::Mapping = self.kind {
                 write!(o, "-")?;
@@ -877,8 +892,7 @@ impl SequenceItem {
     where
         O: ?Sized + io::Write,
     {
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        data.raw(self.value).write_to(data, o, Some(self.value))?;
 
         if let Some(suffix) = self.suffix {
             o.write_all(data.str(suffix))?;
@@ -1033,8 +1047,7 @@ impl MappingItem {
     {
         self.key.write_to(data, o)?;
         write!(o, ":")?;
-        o.write_all(data.prefix(self.value))?;
-        data.raw(self.value).write_to(data, o)?;
+        data.raw(self.value).write_to(data, o, Some(self.value))?;
 
         if let Some(suffix) = self.suffix {
             o.write_all(data.str(suffix))?;
-- 
2.43.0


From 5f9de16de0460f8690327ac35c5da748aa8a0bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:23 +0000
Subject: [PATCH 09/34] fix: read missing values as null wherever they are

---
 src/yaml/parsing.rs | 80 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 61 insertions(+), 19 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 36de86e..2be5e2b 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -1,4 +1,5 @@
 use std::array;
+use std::cmp::Ordering;
 
 use bstr::ByteSlice;
 
@@ -31,6 +32,8 @@ struct State {
     inline: bool,
     tabular: bool,
     parent_indent: Option<usize>,
+    /// If a sequence is allowed to be at the same indentation as the parent.
+    indentless: bool,
 }
 
 impl State {
@@ -42,6 +45,7 @@ impl State {
             inline: false,
             tabular: false,
             parent_indent: None,
+            indentless: false,
         }
     }
 
@@ -76,6 +80,14 @@ impl State {
             ..self
         }
     }
+
+    #[inline]
+    fn with_indentless(self) -> Self {
+        Self {
+            indentless: true,
+            ..self
+        }
+    }
 }
 
 /// A YAML parser.
@@ -662,8 +674,12 @@ impl<'a> Parser<'a> {
             self.bump(1);
 
             let value_prefix = self.ws();
-            let (value, ws) =
-                self.value(&State::new(value_prefix).with_parent(item_id).with_tabular())?;
+            let (value, ws) = self.value(
+                &State::new(value_prefix)
+                    .with_parent(item_id)
+                    .with_tabular()
+                    .with_parent_indent(indent),
+            )?;
 
             self.data.replace(
                 item_id,
@@ -695,9 +711,7 @@ impl<'a> Parser<'a> {
     }
 
     /// Parse a raw mapping.
-    ///
-    /// If the indentation level is same as the parent, process this as a nul.
-    fn mapping_or_nul(
+    fn mapping(
         &mut self,
         s: &State,
         mut start: usize,
@@ -712,15 +726,6 @@ impl<'a> Parser<'a> {
 
         let indent = self.indent_from(start);
 
-        // Finding a mapping on a smaller indentation level than the parent
-        // indentation means that we've encountered a nul value and need to rewind parsing.
-        if matches!(s.parent_indent, Some(i) if i >= indent) {
-            self.n = start;
-            self.data
-                .replace_with(mapping_id, empty, Raw::Null(raw::Null::Empty));
-            return Ok((mapping_id, Some(s.prefix)));
-        }
-
         while let Some(key) = current_key.take() {
             if !matches!(self.peek1(), b':') {
                 self.bump(1);
@@ -737,7 +742,8 @@ impl<'a> Parser<'a> {
                 &State::new(value_prefix)
                     .with_parent(item_id)
                     .with_tabular()
-                    .with_parent_indent(indent),
+                    .with_parent_indent(indent)
+                    .with_indentless(),
             )?;
 
             self.data.replace(
@@ -959,8 +965,42 @@ impl<'a> Parser<'a> {
         )
     }
 
+    /// Test if the current position has no value for the collection it is in.
+    fn is_nul(&self, s: &State) -> bool {
+        if s.inline {
+            return matches!(self.peek1(), b',' | b']' | b'}');
+        }
+
+        let Some(indent) = s.parent_indent else {
+            return false;
+        };
+
+        if self.is_eof() {
+            return true;
+        }
+
+        // Anything which isn't indented further than the parent on a new line
+        // is not part of it.
+        if !self.data.str(s.prefix).contains(&raw::NEWLINE) {
+            return false;
+        }
+
+        match self.indent().cmp(&indent) {
+            Ordering::Less => true,
+            Ordering::Equal => !s.indentless || !matches!(self.peek(), [b'-', ws!(EOF)]),
+            Ordering::Greater => false,
+        }
+    }
+
     /// Consume a single value.
     fn value(&mut self, s: &State) -> Result<(Id, Option<StringId>)> {
+        if self.is_nul(s) {
+            // NB: the prefix is only used if a value is put here later.
+            let prefix = self.data.insert_str(" ");
+            let id = self.placeholder(prefix, s.parent);
+            return Ok((id, Some(s.prefix)));
+        }
+
         let (raw, ws) = match self.peek() {
             [b'-', ws!()] if !s.inline => {
                 return self.sequence(s);
@@ -971,7 +1011,7 @@ impl<'a> Parser<'a> {
 
                 if !s.inline {
                     if let Some(key) = self.quoted_key(start, string.clone()) {
-                        return self.mapping_or_nul(s, start, key);
+                        return self.mapping(s, start, key);
                     }
                 }
 
@@ -983,7 +1023,7 @@ impl<'a> Parser<'a> {
 
                 if !s.inline {
                     if let Some(key) = self.quoted_key(start, string.clone()) {
-                        return self.mapping_or_nul(s, start, key);
+                        return self.mapping(s, start, key);
                     }
                 }
 
@@ -1020,7 +1060,7 @@ impl<'a> Parser<'a> {
 
                         self.trim_back(start);
                     } else if let Some(key) = self.key_or_eol(start) {
-                        return self.mapping_or_nul(s, start, key);
+                        return self.mapping(s, start, key);
                     }
 
                     // NB: calling `key_or_eol` will have consumed everything up
@@ -1028,7 +1068,9 @@ impl<'a> Parser<'a> {
                     // span as the production string.
                     let string = self.string(start);
                     (
-                        if string == b"~" {
+                        if string.is_empty() && self.is_eof() {
+                            Raw::Null(raw::Null::Empty)
+                        } else if string == b"~" {
                             Raw::Null(raw::Null::Tilde)
                         } else if string.eq_ignore_ascii_case(b"null") {
                             Raw::Null(raw::Null::Keyword(self.data.insert_str(string)))
-- 
2.43.0


From 5f41cbb0dfc96958e1435c284ca35e6859c621ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:47 +0000
Subject: [PATCH 10/34] fix: require whitespace after sequence and document
 markers

---
 src/yaml/parsing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 2be5e2b..cc2ebcc 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -140,12 +140,12 @@ impl<'a> Parser<'a> {
         loop {
             match self.peek() {
                 // Process headers.
-                [b'%', _, _] => {
+                [b'%', _, _, _] => {
                     self.find(raw::NEWLINE);
                     self.ws();
                 }
                 // Process start-of-document.
-                [b'-', b'-', b'-'] => {
+                [b'-', b'-', b'-', ws!(EOF)] => {
                     self.bump(3);
                     self.ws();
                     break;
@@ -693,7 +693,7 @@ impl<'a> Parser<'a> {
             let ws = ws.unwrap_or_else(|| self.ws());
             previous_ws = Some(ws);
 
-            if self.indent() != indent || !matches!(self.peek1(), b'-') {
+            if self.indent() != indent || !matches!(self.peek(), [b'-', ws!(EOF)]) {
                 break;
             }
         }
@@ -1002,7 +1002,7 @@ impl<'a> Parser<'a> {
         }
 
         let (raw, ws) = match self.peek() {
-            [b'-', ws!()] if !s.inline => {
+            [b'-', ws!(EOF)] if !s.inline => {
                 return self.sequence(s);
             }
             [b'"', _] => {
-- 
2.43.0


From b3a34d19d5b80359517785d0640c2a3aad9198f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:51 +0000
Subject: [PATCH 11/34] fix: read block scalars by the indentation of their
 lines

---
 src/yaml/parsing.rs | 91 +++++++++++++++++++++++++++++----------------
 1 file changed, 59 insertions(+), 32 deletions(-)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index cc2ebcc..9de398c 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -209,9 +209,8 @@ impl<'a> Parser<'a> {
     }
 
     /// Consume whitespace.
-    fn ws_nl(&mut self) -> (StringId, u32) {
+    fn ws(&mut self) -> StringId {
         let start = self.n;
-        let mut nl = 0u32;
 
         loop {
             match self.peek1() {
@@ -222,16 +221,10 @@ impl<'a> Parser<'a> {
                 _ => break,
             }
 
-            nl = nl.wrapping_add(u32::from(matches!(self.peek1(), raw::NEWLINE)));
             self.bump(1);
         }
 
-        (self.data.insert_str(self.string(start)), nl)
-    }
-
-    /// Consume whitespace.
-    fn ws(&mut self) -> StringId {
-        self.ws_nl().0
+        self.data.insert_str(self.string(start))
     }
 
     /// Test if current position contains nothing but whitespace until we reach a line end.
@@ -898,50 +891,80 @@ impl<'a> Parser<'a> {
     /// Process a block as a string.
     fn block(
         &mut self,
+        s: &State,
         n: usize,
         join: u8,
         folded: bool,
         chomp: bool,
         clip: bool,
     ) -> (Raw, Option<StringId>) {
+        // Lines have to be indented further than what they belong to.
+        let min_indent = s.parent_indent.map_or(0, |indent| indent.saturating_add(1));
+
         let start = self.n;
         self.bump(n);
         let prefix = self.data.insert_str(self.string(start));
 
         let start = self.n;
-        let (mut ws, mut nl) = self.ws_nl();
-
-        if nl == 0 {
-            self.find(raw::NEWLINE);
-            let out = self.input.get(start..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+        self.find(raw::NEWLINE);
+        let header = self.string(start).trim();
 
-            (ws, nl) = self.ws_nl();
+        // Text in the header which is not a comment is treated as the first line.
+        let mut has_header = !header.is_empty() && !header.starts_with(b"#");
+        let mut is_empty = !has_header;
 
-            if !self.is_eof() {
-                self.scratch.push(join);
-            }
+        if has_header {
+            self.scratch.extend_from_slice(header);
         }
 
         let mut end = self.n;
-        let indent = self.indent();
+        let mut last = self.n;
+        let mut indent = None;
+        let mut nl = 0u32;
 
         while !self.is_eof() {
-            let s = self.n;
-            self.find(raw::NEWLINE);
-            let out = self.input.get(s..self.n).unwrap_or_default().trim();
-            self.scratch.extend_from_slice(out);
+            last = self.n;
+            nl = nl.wrapping_add(1);
+            self.bump(1);
 
-            end = self.n;
-            (ws, nl) = self.ws_nl();
+            let line = self.n;
+            self.find(raw::NEWLINE);
+            let out = self.string(line);
+            let out = out.strip_suffix(b"\r").unwrap_or(out);
+            let ws = out
+                .iter()
+                .take_while(|b| matches!(**b, other_ws!()))
+                .count();
+
+            if ws == out.len() && indent.map_or(true, |indent| ws <= indent) {
+                continue;
+            }
 
-            if self.indent() < indent {
+            if ws < indent.unwrap_or(min_indent) {
                 break;
             }
 
-            for _ in 0..if folded { 1 } else { nl } {
+            let joins = match (folded, is_empty) {
+                (true, _) => u32::from(!is_empty),
+                (false, true) => nl.saturating_sub(1),
+                (false, false) if has_header => 1,
+                (false, false) => nl,
+            };
+
+            for _ in 0..joins {
                 self.scratch.push(join);
             }
+
+            let indent = *indent.get_or_insert(ws);
+            self.scratch.extend_from_slice(&out[indent..]);
+            is_empty = false;
+            has_header = false;
+            nl = 0;
+            end = self.n;
+        }
+
+        if is_empty {
+            nl = if clip { 0 } else { nl.saturating_sub(1) };
         }
 
         for _ in 0..if chomp { nl } else { Default::default() } {
@@ -952,11 +975,14 @@ impl<'a> Parser<'a> {
             }
         }
 
+        // Every line which is kept is part of the value.
+        self.n = if chomp && !clip { last } else { end };
+
         let string = self.data.insert_str(&self.scratch);
         self.scratch.clear();
 
-        let out = self.input.get(start..end).unwrap_or_default();
-        let original = self.data.insert_str(out);
+        let original = self.data.insert_str(self.string(start));
+        let ws = self.ws();
 
         let kind = raw::RawStringKind::Multiline { prefix };
         (
@@ -1031,12 +1057,13 @@ impl<'a> Parser<'a> {
             }
             [b'[', _] => return Ok((self.inline_sequence(s)?, None)),
             [b'{', _] => return Ok((self.inline_mapping(s)?, None)),
-            [a @ (b'>' | b'|'), b] => self.block(
+            [a @ (b'>' | b'|'), b] if !s.inline => self.block(
+                s,
                 matches!(b, b'-' | b'+').then_some(2).unwrap_or(1),
                 if a == b'>' { raw::SPACE } else { raw::NEWLINE },
                 a == b'>',
                 b != b'-',
-                b == b'-',
+                b != b'+',
             ),
             _ => {
                 'default: {
-- 
2.43.0


From 8e4e58a227f22c3dd3aeba824fc5150a4ef2f810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 12/34] fix: skip from the back in nth_back of the collection
 iterators

---
 src/yaml/mapping/iter.rs  | 2 +-
 src/yaml/sequence/iter.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yaml/mapping/iter.rs b/src/yaml/mapping/iter.rs
index 36119a7..66d0eb6 100644
--- a/src/yaml/mapping/iter.rs
+++ b/src/yaml/mapping/iter.rs
@@ -59,7 +59,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.mapping_item(*self.iter.nth(n)?);
+        let item = self.data.mapping_item(*self.iter.nth_back(n)?);
         let key = self.data.str(item.key.id);
         let value = Value::new(self.data, item.value);
         Some((key, value))
diff --git a/src/yaml/sequence/iter.rs b/src/yaml/sequence/iter.rs
index 5dc2de7..538141a 100644
--- a/src/yaml/sequence/iter.rs
+++ b/src/yaml/sequence/iter.rs
@@ -51,7 +51,7 @@ impl DoubleEndedIterator for Iter<'_> {
 
     #[inline]
     fn nth_back(&mut self, n: usize) -> Option<Self::Item> {
-        let item = self.data.sequence_item(*self.iter.nth(n)?);
+        let item = self.data.sequence_item(*self.iter.nth_back(n)?);
         Some(Value::new(self.data, item.value))
     }
 }
-- 
2.43.0


From 02a581da67727b59a954c718974aaf7429c38b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:22 +0000
Subject: [PATCH 13/34] fix: quote strings and keys which would be read as
 something else

---
 src/yaml/mapping/mapping_mut.rs |  3 +-
 src/yaml/raw.rs                 | 59 +++++++++++++++++++++++++++++----
 src/yaml/value_mut.rs           |  3 +-
 3 files changed, 57 insertions(+), 8 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 9c63793..fc8af09 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -149,6 +149,7 @@ impl<'a> MappingMut<'a> {
 
     /// Insert a value into the mapping.
     fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let kind = raw::RawStringKind::detect(key);
         let key = self.data.insert_str(key);
 
         if let Some(id) = self
@@ -164,7 +165,7 @@ impl<'a> MappingMut<'a> {
             return id;
         }
 
-        let key = raw::String::new(raw::RawStringKind::Bare, key, key);
+        let key = raw::String::new(kind, key, key);
 
         let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
             self.make_prefix()
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 38cc661..3b77e8e 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -43,7 +43,7 @@ pub(crate) fn new_string<S>(data: &mut Data, string: S) -> Raw
 where
     S: AsRef<str>,
 {
-    let kind = RawStringKind::detect(string.as_ref());
+    let kind = RawStringKind::detect(string.as_ref().as_bytes());
     let string = data.insert_str(string.as_ref());
     Raw::String(String::new(kind, string, string))
 }
@@ -123,6 +123,8 @@ where
 {
     let kind = match kind {
         StringKind::Bare => RawStringKind::Bare,
+        // NB: single-quoted strings do not have any escapes.
+        StringKind::Single if string.as_ref().chars().any(is_unprintable) => RawStringKind::Double,
         StringKind::Single => RawStringKind::Single,
         StringKind::Double => RawStringKind::Double,
     };
@@ -491,12 +493,13 @@ pub(crate) enum RawStringKind {
 
 impl RawStringKind {
     /// Detect the appropriate kind to use for the given string.
-    pub(crate) fn detect(string: &str) -> RawStringKind {
-        if matches!(string, "true" | "false" | "null") {
-            return RawStringKind::Single;
-        }
+    pub(crate) fn detect(string: &[u8]) -> RawStringKind {
+        let mut kind = if is_bare(string) {
+            RawStringKind::Bare
+        } else {
+            RawStringKind::Single
+        };
 
-        let mut kind = RawStringKind::Bare;
         let mut first = true;
 
         for c in string.chars() {
@@ -537,6 +540,50 @@ pub(crate) struct String {
 
 /// Test for characters outside of ascii which have to be escaped since YAML
 /// doesn't treat them as printable, or treats them as line breaks.
+/// Test if a string which is not quoted is read back as that very string,
+/// regardless of whether it's in a block or an inline collection.
+fn is_bare(string: &[u8]) -> bool {
+    // Anything that would be read as something other than a string.
+    if ["", "~", "null", "true", "false"]
+        .iter()
+        .any(|word| string.eq_ignore_ascii_case(word.as_bytes()))
+    {
+        return false;
+    }
+
+    let unsigned = string.strip_prefix(b"-").unwrap_or(string);
+    let unsigned = unsigned.strip_prefix(b"+").unwrap_or(unsigned);
+
+    if let [b'0'..=b'9', ..] | [b'.', b'0'..=b'9', ..] = unsigned {
+        return false;
+    }
+
+    if [".inf", ".nan"]
+        .iter()
+        .any(|word| unsigned.eq_ignore_ascii_case(word.as_bytes()))
+    {
+        return false;
+    }
+
+    // Anything which starts with an indicator or a document marker.
+    if let [b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'"' | b'%' | b'@' | b'`', ..]
+    | [b'-' | b'?']
+    | [b'-' | b'?', SPACE, ..]
+    | [b'-', b'-', b'-', ..]
+    | [b'.', b'.', b'.', ..] = string
+    {
+        return false;
+    }
+
+    if string.starts_with(b" ") || string.ends_with(b" ") || string.contains_str(" #") {
+        return false;
+    }
+
+    !string
+        .iter()
+        .any(|b| matches!(b, b',' | b'[' | b']' | b'{' | b'}'))
+}
+
 fn is_unprintable(c: char) -> bool {
     c.is_control()
         || matches!(
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 7e9c45d..ed946e3 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -402,7 +402,8 @@ impl<'a> ValueMut<'a> {
     /// used.
     ///
     /// The heuristic used is:
-    /// * [`StringKind::Single`] will be used if the leading digit is numeric.
+    /// * [`StringKind::Single`] will be used if the leading digit is numeric, or
+    ///   if the string would be read as something else unless it's quoted.
     /// * [`StringKind::Double`] will be used if either a single `'` is
     ///   encounted, or a non-graphical component that requires escaping.
     /// * Otherwise, [`StringKind::Bare`] is used.
-- 
2.43.0


From 58108d2ef6ff877acddef91902b0c38e931c0f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:32 +0000
Subject: [PATCH 14/34] fix: keep edits of inline collections inline

---
 src/yaml/data.rs                  | 13 +++++
 src/yaml/mapping/mapping_mut.rs   | 15 ++++--
 src/yaml/raw.rs                   | 80 +++++++++++++++++++++++++++++--
 src/yaml/sequence/sequence_mut.rs | 16 +++++--
 src/yaml/value_mut.rs             | 21 +++++---
 5 files changed, 125 insertions(+), 20 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9207f74..9c285b4 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -136,6 +136,19 @@ impl Data {
         panic!("expected layout at {id}")
     }
 
+    /// Test if the value is a collection which is written inline.
+    pub(crate) fn is_inline(&self, id: Id) -> bool {
+        match self.raw(id) {
+            raw @ (raw::Raw::Mapping(..) | raw::Raw::Sequence(..)) => !raw.is_tabular(),
+            _ => false,
+        }
+    }
+
+    /// Get the collection which contains the given value.
+    pub(crate) fn collection(&self, id: Id) -> Option<Id> {
+        self.layout(self.layout(id).parent?).parent
+    }
+
     #[inline]
     pub(crate) fn prefix(&self, id: Id) -> &BStr {
         self.str(self.layout(id).prefix)
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index fc8af09..402a416 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -167,10 +167,12 @@ impl<'a> MappingMut<'a> {
 
         let key = raw::String::new(kind, key, key);
 
-        let item_prefix = if self.data.mapping(self.id).items.last().is_some() {
-            self.make_prefix()
-        } else {
-            self.data.insert_str("")
+        let inline = self.data.is_inline(self.id);
+
+        let item_prefix = match self.data.mapping(self.id).items.last() {
+            Some(&last) if inline => raw::make_inline_prefix(self.data, last),
+            Some(..) => self.make_prefix(),
+            None => self.data.insert_str(""),
         };
 
         let item_id = self
@@ -434,6 +436,7 @@ impl<'a> MappingMut<'a> {
 
         let item = self.data.mapping_mut(self.id).items.remove(index);
         self.data.drop(item);
+        self.data.mapping_mut(self.id).trim_trailing();
         true
     }
 
@@ -471,6 +474,7 @@ impl<'a> MappingMut<'a> {
         }
 
         self.data.mapping_mut(self.id).items = items;
+        self.data.mapping_mut(self.id).trim_trailing();
     }
 
     /// Insert a new null value and return a [`ValueMut`] to the newly inserted
@@ -508,7 +512,8 @@ impl<'a> MappingMut<'a> {
     where
         K: AsRef<[u8]>,
     {
-        let value = self.inner_insert(key.as_ref(), separator, Raw::Null(raw::Null::Empty));
+        let value = raw::new_null(self.data, Some(self.id));
+        let value = self.inner_insert(key.as_ref(), separator, value);
         ValueMut::new(self.data, value)
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 3b77e8e..0d77a69 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -52,9 +52,14 @@ where
 pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, StringId) {
     let parent = data.layout(id).parent;
 
-    let container = parent
-        .and_then(|id| data.layout(id).parent)
-        .map(|id| data.pair(id));
+    let container = parent.and_then(|id| data.layout(id).parent);
+
+    // Anything inside of an inline collection stays on the same line.
+    if container.is_some_and(|id| data.is_inline(id)) {
+        return (0, data.layout(id).prefix);
+    }
+
+    let container = container.map(|id| data.pair(id));
 
     let (indent, is_sequence_mapping, layout) = match container {
         Some((Raw::Mapping(raw), layout)) => (raw.indent, false, layout),
@@ -116,6 +121,29 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     (indent, data.insert_str(prefix))
 }
 
+/// Construct an empty null value for the given collection.
+pub(crate) fn new_null(data: &mut Data, collection: Option<Id>) -> Raw {
+    // NB: something has to be written in an inline collection.
+    if collection.is_some_and(|id| data.is_inline(id)) {
+        return Raw::Null(Null::Keyword(data.insert_str("null")));
+    }
+
+    Raw::Null(Null::Empty)
+}
+
+/// Construct the prefix of an item which is added to the end of an inline
+/// collection.
+pub(crate) fn make_inline_prefix(data: &mut Data, last: Id) -> StringId {
+    let prefix = data.prefix(last);
+
+    // Pick up existing spacing unless there is a comment in it.
+    if !prefix.is_empty() && prefix.trim().is_empty() {
+        return data.layout(last).prefix;
+    }
+
+    data.insert_str(" ")
+}
+
 /// Construct a raw kind associated with a string with a custom string kind.
 pub(crate) fn new_string_with<S>(data: &mut Data, string: S, kind: StringKind) -> Raw
 where
@@ -828,7 +856,30 @@ pub(crate) struct Sequence {
     pub(crate) items: Vec<Id>,
 }
 
+impl SequenceKind {
+    /// The kind of a collection which is added to another collection.
+    pub(crate) fn new(data: &mut Data, collection: Option<Id>) -> Self {
+        if !collection.is_some_and(|id| data.is_inline(id)) {
+            return Self::Mapping;
+        }
+
+        Self::Inline {
+            trailing: false,
+            suffix: data.insert_str(""),
+        }
+    }
+}
+
 impl Sequence {
+    /// An empty collection doesn't have a trailing separator.
+    pub(crate) fn trim_trailing(&mut self) {
+        if let (true, SequenceKind::Inline { trailing, .. }) =
+            (self.items.is_empty(), &mut self.kind)
+        {
+            *trailing = false;
+        }
+    }
+
     /// Display the sequence.
     pub(crate) fn display(
         &self,
@@ -986,7 +1037,30 @@ pub(crate) struct Mapping {
     pub(crate) items: Vec<Id>,
 }
 
+impl MappingKind {
+    /// The kind of a collection which is added to another collection.
+    pub(crate) fn new(data: &mut Data, collection: Option<Id>) -> Self {
+        if !collection.is_some_and(|id| data.is_inline(id)) {
+            return Self::Mapping;
+        }
+
+        Self::Inline {
+            trailing: false,
+            suffix: data.insert_str(""),
+        }
+    }
+}
+
 impl Mapping {
+    /// An empty collection doesn't have a trailing separator.
+    pub(crate) fn trim_trailing(&mut self) {
+        if let (true, MappingKind::Inline { trailing, .. }) =
+            (self.items.is_empty(), &mut self.kind)
+        {
+            *trailing = false;
+        }
+    }
+
     /// Display the mapping.
     pub(crate) fn display(
         &self,
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index cf07745..46b30c5 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -103,10 +103,12 @@ impl<'a> SequenceMut<'a> {
 
     /// Push a value on the sequence.
     fn inner_push(&mut self, separator: Separator, value: Raw) -> Id {
-        let item_prefix = if self.data.sequence(self.id).items.last().is_some() {
-            self.make_prefix()
-        } else {
-            self.data.insert_str("")
+        let inline = self.data.is_inline(self.id);
+
+        let item_prefix = match self.data.sequence(self.id).items.last() {
+            Some(&last) if inline => raw::make_inline_prefix(self.data, last),
+            Some(..) => self.make_prefix(),
+            None => self.data.insert_str(""),
         };
 
         let item_id = self
@@ -114,6 +116,7 @@ impl<'a> SequenceMut<'a> {
             .insert(Raw::Null(raw::Null::Empty), item_prefix, Some(self.id));
 
         let value_prefix = match separator {
+            Separator::Auto if inline => self.data.insert_str(""),
             Separator::Auto => match self.data.sequence(self.id).items.last() {
                 Some(last) => {
                     self.data
@@ -327,6 +330,7 @@ impl<'a> SequenceMut<'a> {
 
         let item = raw.items.remove(index);
         self.data.drop(item);
+        self.data.sequence_mut(self.id).trim_trailing();
         true
     }
 
@@ -363,6 +367,7 @@ impl<'a> SequenceMut<'a> {
         }
 
         self.data.sequence_mut(self.id).items = items;
+        self.data.sequence_mut(self.id).trim_trailing();
     }
 
     /// Push a new null value and return a [`ValueMut`] to the newly pushed value.
@@ -396,7 +401,8 @@ impl<'a> SequenceMut<'a> {
     /// # Ok::<_, anyhow::Error>(())
     /// ```
     pub fn push(&mut self, separator: Separator<'_>) -> ValueMut<'_> {
-        let value = self.inner_push(separator, Raw::Null(raw::Null::Empty));
+        let value = raw::new_null(self.data, Some(self.id));
+        let value = self.inner_push(separator, value);
         ValueMut::new(self.data, value)
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index ed946e3..367ee36 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -387,12 +387,15 @@ impl<'a> ValueMut<'a> {
     /// ```
     #[inline]
     pub fn set_null(&mut self, kind: Null) {
-        let raw_kind = match kind {
-            Null::Keyword => raw::Null::Keyword(self.data.insert_str("null")),
-            Null::Tilde => raw::Null::Tilde,
-            Null::Empty => raw::Null::Empty,
+        let value = match kind {
+            Null::Keyword => Raw::Null(raw::Null::Keyword(self.data.insert_str("null"))),
+            Null::Tilde => Raw::Null(raw::Null::Tilde),
+            Null::Empty => {
+                let collection = self.data.collection(self.id);
+                raw::new_null(self.data, collection)
+            }
         };
-        self.data.replace(self.id, Raw::Null(raw_kind));
+        self.data.replace(self.id, value);
     }
 
     /// Set the value as a string.
@@ -693,13 +696,15 @@ impl<'a> ValueMut<'a> {
     pub fn make_mapping(self) -> MappingMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Mapping(..)) {
             let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            let collection = self.data.collection(self.id);
+            let kind = raw::MappingKind::new(self.data, collection);
 
             self.data.replace_with(
                 self.id,
                 prefix,
                 Raw::Mapping(raw::Mapping {
                     indent,
-                    kind: raw::MappingKind::Mapping,
+                    kind,
                     items: Vec::new(),
                 }),
             );
@@ -759,13 +764,15 @@ impl<'a> ValueMut<'a> {
     pub fn make_sequence(self) -> SequenceMut<'a> {
         if !matches!(self.data.raw(self.id), Raw::Sequence(..)) {
             let (indent, prefix) = raw::make_indent(self.data, self.id, 0);
+            let collection = self.data.collection(self.id);
+            let kind = raw::SequenceKind::new(self.data, collection);
 
             self.data.replace_with(
                 self.id,
                 prefix,
                 Raw::Sequence(raw::Sequence {
                     indent,
-                    kind: raw::SequenceKind::Mapping,
+                    kind,
                     items: Vec::new(),
                 }),
             );
-- 
2.43.0


From 961225d2000b661a1c3ae712e7ffb61a79ef1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 15/34] fix: indent collections in sequence items by the
 sequence they are in

---
 src/yaml/raw.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 0d77a69..eb58d8c 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -94,10 +94,8 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // - two: 2
         //   three: 3
         // ```
-        if let Some((Raw::SequenceItem(..), layout)) = parent.map(|id| data.pair(id)) {
-            let indent = self::count_indent(data.str(layout.prefix))
-                .saturating_add(2)
-                .saturating_add(extra);
+        if let Some((Raw::SequenceItem(..), _)) = parent.map(|id| data.pair(id)) {
+            let indent = indent.saturating_add(2).saturating_add(extra);
             return (indent, data.insert_str(" "));
         }
     }
-- 
2.43.0


From 89ddec287357a7481c372b6f8aa653c925c76e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:12 +0000
Subject: [PATCH 16/34] fix: keep a value which replaces a collection or an
 empty document readable

---
 src/yaml/data.rs                | 47 ++++++++++++++++++++++++++++++++-
 src/yaml/mapping/mapping_mut.rs |  2 +-
 src/yaml/raw.rs                 | 27 +++++++++++++++----
 src/yaml/value_mut.rs           | 14 +++++-----
 4 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 9c285b4..0d1e8b8 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -4,7 +4,7 @@ use std::hash::Hash;
 use std::mem;
 use std::num::NonZeroUsize;
 
-use bstr::BStr;
+use bstr::{BStr, ByteSlice};
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 use twox_hash::xxh3::{Hash128, HasherExt};
@@ -306,6 +306,51 @@ impl Data {
         }
     }
 
+    /// Get the prefix to use for a value which is put at the root of the
+    /// document.
+    ///
+    /// An empty document might not have terminated the line of its prefix.
+    pub(crate) fn root_prefix(&mut self, id: Id) -> StringId {
+        let prefix = self.prefix(id);
+        let line = raw::indent(prefix);
+
+        if line.trim().is_empty() || (line.trim() == b"---" && line.ends_with(b" ")) {
+            return self.layout(id).prefix;
+        }
+
+        let mut prefix = prefix.to_vec();
+        prefix.push(raw::NEWLINE);
+        self.insert_str(prefix)
+    }
+
+    /// Replace the value with the given id with something that is not a
+    /// collection, while ensuring that it's still a value where it is.
+    pub(crate) fn replace_scalar(&mut self, id: Id, raw: raw::Raw) {
+        let prefix = match self.collection(id).map(|id| self.raw(id)) {
+            _ if matches!(raw, raw::Raw::Null(raw::Null::Empty)) => self.layout(id).prefix,
+            Some(
+                raw::Raw::Mapping(raw::Mapping { indent, .. })
+                | raw::Raw::Sequence(raw::Sequence { indent, .. }),
+            ) if self.raw(id).is_tabular() => {
+                // NB: a collection might have the same indentation as the
+                // mapping it's in, but nothing else can.
+                let mut prefix = self.prefix(id).to_vec();
+
+                if prefix.contains(&raw::NEWLINE) {
+                    let wanted = indent.saturating_add(2);
+                    let missing = wanted.saturating_sub(raw::count_indent(&prefix));
+                    prefix.resize(prefix.len().saturating_add(missing), raw::SPACE);
+                }
+
+                self.insert_str(prefix)
+            }
+            None => self.root_prefix(id),
+            _ => self.layout(id).prefix,
+        };
+
+        self.replace_with(id, prefix, raw);
+    }
+
     /// Replace a raw value.
     pub(crate) fn replace<T>(&mut self, id: Id, raw: T)
     where
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index 402a416..e3540e7 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -161,7 +161,7 @@ impl<'a> MappingMut<'a> {
             .find(|item| item.key.id == key)
             .map(|item| item.value)
         {
-            self.data.replace(id, value);
+            self.data.replace_scalar(id, value);
             return id;
         }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index eb58d8c..b0cce69 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -69,7 +69,7 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
             layout,
         ),
         _ => {
-            let prefix = data.layout(id).prefix;
+            let prefix = data.root_prefix(id);
             let indent = self::count_indent(data.str(prefix)).saturating_add(extra);
 
             if extra == 0 {
@@ -96,7 +96,13 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
         // ```
         if let Some((Raw::SequenceItem(..), _)) = parent.map(|id| data.pair(id)) {
             let indent = indent.saturating_add(2).saturating_add(extra);
-            return (indent, data.insert_str(" "));
+
+            let Some(mut prefix) = comment_prefix(data, id) else {
+                return (indent, data.insert_str(" "));
+            };
+
+            prefix.resize(prefix.len().saturating_add(indent), SPACE);
+            return (indent, data.insert_str(prefix));
         }
     }
 
@@ -104,9 +110,7 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     // Take some pains to preserve the existing suffix, synthesize extra spaces characters where needed.
     let mut existing = self::indent(data.str(layout.prefix)).chars();
 
-    let mut prefix = Vec::new();
-
-    prefix.push(NEWLINE);
+    let mut prefix = comment_prefix(data, id).unwrap_or_else(|| vec![NEWLINE]);
 
     for _ in 0..indent {
         if let Some(c) = existing.next() {
@@ -119,6 +123,19 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
     (indent, data.insert_str(prefix))
 }
 
+/// Get any comments in front of the value with the given id, up until the line
+/// that the value is on.
+fn comment_prefix(data: &Data, id: Id) -> Option<Vec<u8>> {
+    let prefix = data.prefix(id);
+
+    if prefix.trim().is_empty() {
+        return None;
+    }
+
+    let n = prefix.len().saturating_sub(indent(prefix).len());
+    Some(prefix[..n].to_vec())
+}
+
 /// Construct an empty null value for the given collection.
 pub(crate) fn new_null(data: &mut Data, collection: Option<Id>) -> Raw {
     // NB: something has to be written in an inline collection.
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index 367ee36..e24b187 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -334,7 +334,7 @@ macro_rules! set_float {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = ryu::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.replace_scalar(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -358,7 +358,7 @@ macro_rules! set_number {
         pub fn $name(&mut self, value: $ty) {
             let mut buffer = itoa::Buffer::new();
             let string = self.data.insert_str(buffer.format(value));
-            self.data.replace(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
+            self.data.replace_scalar(self.id, Raw::Number(raw::Number::new(string, crate::yaml::serde_hint::$hint)));
         }
     };
 }
@@ -395,7 +395,7 @@ impl<'a> ValueMut<'a> {
                 raw::new_null(self.data, collection)
             }
         };
-        self.data.replace(self.id, value);
+        self.data.replace_scalar(self.id, value);
     }
 
     /// Set the value as a string.
@@ -447,7 +447,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string(self.data, string);
-        self.data.replace(self.id, value);
+        self.data.replace_scalar(self.id, value);
     }
 
     /// Set the value as a string with a custom [`StringKind`].
@@ -473,7 +473,7 @@ impl<'a> ValueMut<'a> {
         S: AsRef<str>,
     {
         let value = raw::new_string_with(self.data, string, kind);
-        self.data.replace(self.id, value);
+        self.data.replace_scalar(self.id, value);
     }
 
     /// Set the value as a literal block.
@@ -579,7 +579,7 @@ impl<'a> ValueMut<'a> {
         I::Item: AsRef<str>,
     {
         let value = raw::new_block(self.data, self.id, iter, block);
-        self.data.replace(self.id, value);
+        self.data.replace_scalar(self.id, value);
     }
 
     /// Set the value as a boolean.
@@ -598,7 +598,7 @@ impl<'a> ValueMut<'a> {
     /// ```
     pub fn set_bool(&mut self, value: bool) {
         let value = raw::new_bool(self.data, value);
-        self.data.replace(self.id, value);
+        self.data.replace_scalar(self.id, value);
     }
 
     set_float!(set_f32, f32, "32-bit float", 10.42, F32);
-- 
2.43.0


From ffbf9a3e9b33412a662a1cc60bc108dc87bda534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:52 +0000
Subject: [PATCH 17/34] fix: keep comments in front of a value which is made
 empty

---
 src/yaml/data.rs |  5 +++++
 src/yaml/raw.rs  | 30 +++++++++++++++++-------------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 0d1e8b8..25721f3 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -149,6 +149,11 @@ impl Data {
         self.layout(self.layout(id).parent?).parent
     }
 
+    /// Test if there is anything but whitespace in the prefix of the given id.
+    pub(crate) fn has_comment(&self, id: Id) -> bool {
+        !self.prefix(id).trim().is_empty()
+    }
+
     #[inline]
     pub(crate) fn prefix(&self, id: Id) -> &BStr {
         self.str(self.layout(id).prefix)
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index b0cce69..a8b045f 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -126,12 +126,12 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
 /// Get any comments in front of the value with the given id, up until the line
 /// that the value is on.
 fn comment_prefix(data: &Data, id: Id) -> Option<Vec<u8>> {
-    let prefix = data.prefix(id);
-
-    if prefix.trim().is_empty() {
+    if !data.has_comment(id) {
         return None;
     }
 
+    let prefix = data.prefix(id);
+
     let n = prefix.len().saturating_sub(indent(prefix).len());
     Some(prefix[..n].to_vec())
 }
@@ -323,8 +323,9 @@ impl Raw {
     where
         O: ?Sized + io::Write,
     {
-        // NB: anything which is written as nothing does not have a prefix.
-        if let (Some(id), false) = (prefix, self.is_blank()) {
+        // NB: anything which is written as nothing does not have a prefix, unless
+        // there is a comment in it.
+        if let Some(id) = prefix.filter(|id| !self.is_blank() || data.has_comment(*id)) {
             o.write_all(data.prefix(id))?;
         }
 
@@ -434,6 +435,9 @@ impl Null {
             }
             Null::Empty => {
                 // empty values count as null.
+                if let Some(id) = prefix.filter(|id| data.has_comment(*id)) {
+                    write!(f, "{}", data.prefix(id))?;
+                }
             }
         }
 
@@ -902,10 +906,10 @@ impl Sequence {
         f: &mut fmt::Formatter,
         prefix: Option<Id>,
     ) -> fmt::Result {
-        if matches!(self.kind, SequenceKind::Inline { .. }) || !self.items.is_empty() {
-            if let Some(id) = prefix {
-                write!(f, "{}", data.prefix(id))?;
-            }
+        let empty = matches!(self.kind, SequenceKind::Mapping) && self.items.is_empty();
+
+        if let Some(id) = prefix.filter(|id| !empty || data.has_comment(*id)) {
+            write!(f, "{}", data.prefix(id))?;
         }
 
         if let SequenceKind::Inline { .. } = &self.kind {
@@ -1083,10 +1087,10 @@ impl Mapping {
         f: &mut fmt::Formatter,
         prefix: Option<Id>,
     ) -> fmt::Result {
-        if matches!(self.kind, MappingKind::Inline { .. }) || !self.items.is_empty() {
-            if let Some(id) = prefix {
-                write!(f, "{}", data.prefix(id))?;
-            }
+        let empty = matches!(self.kind, MappingKind::Mapping) && self.items.is_empty();
+
+        if let Some(id) = prefix.filter(|id| !empty || data.has_comment(*id)) {
+            write!(f, "{}", data.prefix(id))?;
         }
 
         if let MappingKind::Inline { .. } = &self.kind {
-- 
2.43.0


From 61621c23cdb12dfee33211cf7a2a94b4069b7111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:00 +0000
Subject: [PATCH 18/34] fix: only reuse the spacing of the last item when it is
 on the same line

---
 src/yaml/data.rs                  | 7 +++++++
 src/yaml/sequence/sequence_mut.rs | 6 ++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 25721f3..1c52521 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -154,6 +154,13 @@ impl Data {
         !self.prefix(id).trim().is_empty()
     }
 
+    /// Test if the prefix of the given id separates it from something which is
+    /// on the same line.
+    pub(crate) fn is_spacing(&self, id: Id) -> bool {
+        let prefix = self.prefix(id);
+        !prefix.is_empty() && prefix.iter().all(|b| *b == raw::SPACE)
+    }
+
     #[inline]
     pub(crate) fn prefix(&self, id: Id) -> &BStr {
         self.str(self.layout(id).prefix)
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 46b30c5..ed50a40 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -118,12 +118,14 @@ impl<'a> SequenceMut<'a> {
         let value_prefix = match separator {
             Separator::Auto if inline => self.data.insert_str(""),
             Separator::Auto => match self.data.sequence(self.id).items.last() {
-                Some(last) => {
+                // NB: a value on a line of its own has spacing that only makes
+                // sense for that particular value.
+                Some(last) if self.data.is_spacing(self.data.sequence_item(*last).value) => {
                     self.data
                         .layout(self.data.sequence_item(*last).value)
                         .prefix
                 }
-                None => self.data.insert_str(" "),
+                _ => self.data.insert_str(" "),
             },
             Separator::Custom(separator) => self.data.insert_str(separator),
         };
-- 
2.43.0


From fe72d7250e07952741407d71de575adb38874f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:25 +0000
Subject: [PATCH 19/34] fix: indent added blocks by their collection and quote
 text they cannot hold

---
 src/yaml/mapping/mapping_mut.rs   |   5 +-
 src/yaml/raw.rs                   | 101 +++++++++++++++++++++++-------
 src/yaml/sequence/sequence_mut.rs |   5 +-
 src/yaml/value_mut.rs             |   6 +-
 4 files changed, 91 insertions(+), 26 deletions(-)

diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index e3540e7..a9b1ed4 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -558,6 +558,9 @@ impl<'a> MappingMut<'a> {
     /// underlying value type produced is in fact a string, and can be read
     /// through methods such as [`Value::as_str`][crate::yaml::Value::as_str].
     ///
+    /// Text which a block cannot hold, or any text inside of an inline collection, is
+    /// written as a double-quoted string instead.
+    ///
     /// # Examples
     ///
     /// ```
@@ -667,7 +670,7 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, self.id, Some(self.id), iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index a8b045f..720c372 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -3,7 +3,7 @@ use std::io;
 use std::iter;
 use std::mem;
 
-use bstr::{BStr, ByteSlice};
+use bstr::ByteSlice;
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 
@@ -176,59 +176,114 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
-/// Construct a block with the given configuration.
-pub(crate) fn new_block<I>(data: &mut Data, id: Id, iter: I, block: Block) -> Raw
+/// Construct a block with the given configuration, for a value in the given
+/// collection or for the root of the document with the given id.
+pub(crate) fn new_block<I>(
+    data: &mut Data,
+    id: Id,
+    collection: Option<Id>,
+    iter: I,
+    block: Block,
+) -> Raw
 where
     I: IntoIterator,
     I::Item: AsRef<str>,
 {
-    let (indent, prefix) = match data.raw(id) {
-        Raw::Mapping(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
-        Raw::Sequence(raw) => (raw.indent.wrapping_add(2), BStr::new(b"")),
+    let (indent, prefix) = match collection.map(|id| data.raw(id)) {
+        Some(Raw::Mapping(Mapping { indent, .. }) | Raw::Sequence(Sequence { indent, .. })) => {
+            (indent.saturating_add(2), &[][..])
+        }
         _ => {
-            let prefix = data.str(data.layout(id).prefix);
-
-            let n = prefix.rfind([NEWLINE]).map_or(0, |i| i.wrapping_add(1));
-
-            (2, &prefix[n..])
+            let prefix = self::indent(data.prefix(id));
+            (
+                2,
+                if prefix.trim().is_empty() {
+                    prefix
+                } else {
+                    &[]
+                },
+            )
         }
     };
 
-    let mut original = Vec::new();
-    let mut out = Vec::new();
-
     let (mark, join, chomp) = match block {
         Block::Literal(chomp) => (b'|', b'\n', chomp),
         Block::Folded(chomp) => (b'>', b' ', chomp),
     };
 
+    let mut original = Vec::new();
+    let mut out = Vec::new();
+
     original.push(mark);
     original.extend(chomp.as_byte());
 
     let mut it = iter.into_iter().peekable();
 
     while let Some(part) = it.next() {
-        original.push(NEWLINE);
-        original.extend_from_slice(prefix.as_bytes());
-        original.resize(original.len() + indent, SPACE);
-        original.extend(part.as_ref().as_bytes());
-        out.extend(part.as_ref().as_bytes());
+        let part = part.as_ref().as_bytes();
+        out.extend_from_slice(part);
+
+        for line in part.split(|b| *b == NEWLINE) {
+            original.push(NEWLINE);
+
+            // NB: empty lines do not need any indentation.
+            if !line.is_empty() {
+                original.extend_from_slice(prefix);
+                original.resize(original.len().saturating_add(indent), SPACE);
+                original.extend_from_slice(line);
+            }
+        }
 
         if it.peek().is_some() {
             out.push(join);
         }
     }
 
-    if let Chomp::Clip | Chomp::Keep = chomp {
+    let is_block = !collection.is_some_and(|id| data.is_inline(id)) && is_block(&out, block);
+
+    if let (Chomp::Clip | Chomp::Keep, false) = (chomp, out.is_empty()) {
         out.push(NEWLINE);
     }
 
-    let original = data.insert_str(&original);
     let string = data.insert_str(out);
 
+    if !is_block {
+        return Raw::String(self::String::new(RawStringKind::Double, string, string));
+    }
+
+    let original = data.insert_str(&original);
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
+/// Test if the given text, without its final newline, can be written as a
+/// block and be read back as that very text.
+fn is_block(text: &[u8], block: Block) -> bool {
+    if text.is_empty() || text.chars().any(|c| c != '\n' && is_unprintable(c)) {
+        return false;
+    }
+
+    match block {
+        // NB: the first line decides what the indentation is, and the newlines at
+        // the end are subject to chomping.
+        Block::Literal(..) => {
+            let mut lines = text.split(|b| *b == NEWLINE);
+
+            let first = lines.clone().find(|line| !line.is_empty());
+
+            first.is_some_and(|line| line[0] != SPACE)
+                && lines.all(|line| line.is_empty() || line.iter().any(|b| *b != SPACE))
+                && !text.ends_with(b"\n")
+        }
+        // NB: spaces are where lines might be folded.
+        Block::Folded(..) => {
+            !text.contains(&NEWLINE)
+                && !text.starts_with(b" ")
+                && !text.ends_with(b" ")
+                && !text.contains_str("  ")
+        }
+    }
+}
+
 #[derive(Debug, Clone, Copy)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub(crate) struct Layout {
@@ -585,8 +640,6 @@ pub(crate) struct String {
     pub(crate) original: StringId,
 }
 
-/// Test for characters outside of ascii which have to be escaped since YAML
-/// doesn't treat them as printable, or treats them as line breaks.
 /// Test if a string which is not quoted is read back as that very string,
 /// regardless of whether it's in a block or an inline collection.
 fn is_bare(string: &[u8]) -> bool {
@@ -631,6 +684,8 @@ fn is_bare(string: &[u8]) -> bool {
         .any(|b| matches!(b, b',' | b'[' | b']' | b'{' | b'}'))
 }
 
+/// Test for characters outside of ascii which have to be escaped since YAML
+/// doesn't treat them as printable, or treats them as line breaks.
 fn is_unprintable(c: char) -> bool {
     c.is_control()
         || matches!(
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index ed50a40..396e510 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -449,6 +449,9 @@ impl<'a> SequenceMut<'a> {
     /// underlying value type produced is in fact a string, and can be read
     /// through methods such as [`Value::as_str`][crate::yaml::Value::as_str].
     ///
+    /// Text which a block cannot hold, or any text inside of an inline collection, is
+    /// written as a double-quoted string instead.
+    ///
     /// # Examples
     ///
     /// ```
@@ -557,7 +560,7 @@ impl<'a> SequenceMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let value = raw::new_block(self.data, self.id, Some(self.id), iter, block);
         self.inner_push(Separator::Auto, value);
     }
 
diff --git a/src/yaml/value_mut.rs b/src/yaml/value_mut.rs
index e24b187..8bbda1f 100644
--- a/src/yaml/value_mut.rs
+++ b/src/yaml/value_mut.rs
@@ -482,6 +482,9 @@ impl<'a> ValueMut<'a> {
     /// underlying value type produced is in fact a string, and can be read
     /// through methods such as [`Value::as_str`].
     ///
+    /// Text which a block cannot hold, or any text inside of an inline collection, is
+    /// written as a double-quoted string instead.
+    ///
     /// # Examples
     ///
     /// ```
@@ -578,7 +581,8 @@ impl<'a> ValueMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, iter, block);
+        let collection = self.data.collection(self.id);
+        let value = raw::new_block(self.data, self.id, collection, iter, block);
         self.data.replace_scalar(self.id, value);
     }
 
-- 
2.43.0


From 2e97391dcecbb41ef5d980b9445999895bd4fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 20/34] fix: keep the carriage return of a line ending out of
 block scalars

---
 src/yaml/parsing.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 9de398c..a0f1b0b 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -978,6 +978,14 @@ impl<'a> Parser<'a> {
         // Every line which is kept is part of the value.
         self.n = if chomp && !clip { last } else { end };
 
+        // NB: the carriage return belongs to the line ending.
+        if let (Some(b"\r\n"), true) = (
+            self.input.get(self.n.wrapping_sub(1)..=self.n),
+            self.n > start,
+        ) {
+            self.n = self.n.wrapping_sub(1);
+        }
+
         let string = self.data.insert_str(&self.scratch);
         self.scratch.clear();
 
-- 
2.43.0


From 72f61201f909501638f04d918139f531de8c5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 21/34] fix: quote strings which start with a question mark

---
 src/yaml/raw.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 720c372..f8ce11c 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -666,9 +666,9 @@ fn is_bare(string: &[u8]) -> bool {
     }
 
     // Anything which starts with an indicator or a document marker.
-    if let [b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'"' | b'%' | b'@' | b'`', ..]
-    | [b'-' | b'?']
-    | [b'-' | b'?', SPACE, ..]
+    if let [b'#' | b'&' | b'*' | b'!' | b'|' | b'>' | b'"' | b'%' | b'@' | b'`' | b'?', ..]
+    | [b'-']
+    | [b'-', SPACE, ..]
     | [b'-', b'-', b'-', ..]
     | [b'.', b'.', b'.', ..] = string
     {
-- 
2.43.0


From b59d7932fc5e360db9fcb9e66749e6377705eef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:45 +0000
Subject: [PATCH 22/34] fix: separate a missing value from what is added after
 it in an inline mapping

---
 src/yaml/raw.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index f8ce11c..157d9b4 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -149,6 +149,20 @@ pub(crate) fn new_null(data: &mut Data, collection: Option<Id>) -> Raw {
 /// Construct the prefix of an item which is added to the end of an inline
 /// collection.
 pub(crate) fn make_inline_prefix(data: &mut Data, last: Id) -> StringId {
+    // NB: the separator of a missing value might otherwise be read as a part of
+    // the separator after it.
+    if let Raw::MappingItem(MappingItem { value, suffix, .. }) = data.raw(last) {
+        let has_suffix = suffix.is_some_and(|id| !data.str(id).is_empty());
+
+        if matches!(data.raw(*value), Raw::Null(Null::Empty)) && !has_suffix {
+            let space = data.insert_str(" ");
+
+            if let Raw::MappingItem(MappingItem { suffix, .. }) = data.raw_mut(last) {
+                *suffix = Some(space);
+            }
+        }
+    }
+
     let prefix = data.prefix(last);
 
     // Pick up existing spacing unless there is a comment in it.
-- 
2.43.0


From d421b91db6e05de631659171f0391aa91dc84566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 23/34] fix: keep what replaces an entry or the start of a
 document on a line of its own

---
 src/yaml/data.rs | 28 ++++++++++++++++------------
 src/yaml/raw.rs  |  2 +-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 1c52521..910187d 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -322,11 +322,14 @@ impl Data {
     /// document.
     ///
     /// An empty document might not have terminated the line of its prefix.
-    pub(crate) fn root_prefix(&mut self, id: Id) -> StringId {
+    pub(crate) fn root_prefix(&mut self, id: Id, is_collection: bool) -> StringId {
         let prefix = self.prefix(id);
         let line = raw::indent(prefix);
 
-        if line.trim().is_empty() || (line.trim() == b"---" && line.ends_with(b" ")) {
+        // NB: a collection is never on the same line as the start of a document.
+        let is_start = !is_collection && line.trim() == b"---" && line.ends_with(b" ");
+
+        if is_start || line.trim().is_empty() {
             return self.layout(id).prefix;
         }
 
@@ -338,25 +341,26 @@ impl Data {
     /// Replace the value with the given id with something that is not a
     /// collection, while ensuring that it's still a value where it is.
     pub(crate) fn replace_scalar(&mut self, id: Id, raw: raw::Raw) {
+        let is_empty = matches!(raw, raw::Raw::Null(raw::Null::Empty));
+
         let prefix = match self.collection(id).map(|id| self.raw(id)) {
-            _ if matches!(raw, raw::Raw::Null(raw::Null::Empty)) => self.layout(id).prefix,
             Some(
-                raw::Raw::Mapping(raw::Mapping { indent, .. })
-                | raw::Raw::Sequence(raw::Sequence { indent, .. }),
-            ) if self.raw(id).is_tabular() => {
-                // NB: a collection might have the same indentation as the
-                // mapping it's in, but nothing else can.
+                raw @ (raw::Raw::Mapping(raw::Mapping { indent, .. })
+                | raw::Raw::Sequence(raw::Sequence { indent, .. })),
+            ) if raw.is_tabular() => {
+                // NB: a sequence might have the same indentation as the mapping
+                // it's in, but nothing else can.
                 let mut prefix = self.prefix(id).to_vec();
+                let existing = raw::count_indent(&prefix);
 
-                if prefix.contains(&raw::NEWLINE) {
-                    let wanted = indent.saturating_add(2);
-                    let missing = wanted.saturating_sub(raw::count_indent(&prefix));
+                if prefix.contains(&raw::NEWLINE) && existing <= *indent {
+                    let missing = indent.saturating_add(2).saturating_sub(existing);
                     prefix.resize(prefix.len().saturating_add(missing), raw::SPACE);
                 }
 
                 self.insert_str(prefix)
             }
-            None => self.root_prefix(id),
+            None if !is_empty => self.root_prefix(id, false),
             _ => self.layout(id).prefix,
         };
 
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 157d9b4..c6baf4a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -69,7 +69,7 @@ pub(crate) fn make_indent(data: &mut Data, id: Id, extra: usize) -> (usize, Stri
             layout,
         ),
         _ => {
-            let prefix = data.root_prefix(id);
+            let prefix = data.root_prefix(id, true);
             let indent = self::count_indent(data.str(prefix)).saturating_add(extra);
 
             if extra == 0 {
-- 
2.43.0


From 1fbb32da006f7eeaabd250cbd520d5f485657d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:51 +0000
Subject: [PATCH 24/34] fix: keep blocks apart from what follows them when
 adding and removing

---
 src/yaml/data.rs                  | 105 +++++++++++++++++++++++++++
 src/yaml/document.rs              |  13 ++--
 src/yaml/mapping/mapping_mut.rs   |  24 ++++---
 src/yaml/parsing.rs               |   3 +-
 src/yaml/raw.rs                   | 115 +++++++++++++++++++++++++++++-
 src/yaml/sequence/sequence_mut.rs |   1 +
 6 files changed, 241 insertions(+), 20 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 910187d..ca85eeb 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -95,6 +95,8 @@ pub(crate) struct Entry {
 pub(crate) struct Data {
     strings: HashMap<StringId, Box<[u8]>>,
     slab: slab::Slab<Entry>,
+    /// Everything after the last value in the document.
+    suffix: Option<StringId>,
 }
 
 impl Data {
@@ -109,6 +111,16 @@ impl Data {
         BStr::new(string.as_ref())
     }
 
+    /// Get everything after the last value in the document.
+    pub(crate) fn suffix(&self) -> &BStr {
+        self.suffix.map_or(BStr::new(b""), |id| self.str(id))
+    }
+
+    /// Set everything after the last value in the document.
+    pub(crate) fn set_suffix(&mut self, suffix: StringId) {
+        self.suffix = Some(suffix);
+    }
+
     /// Insert a string into the string cache.
     pub(crate) fn insert_str<B>(&mut self, string: B) -> StringId
     where
@@ -149,6 +161,99 @@ impl Data {
         self.layout(self.layout(id).parent?).parent
     }
 
+    /// Get the items of a collection.
+    fn items(&self, id: Id) -> &[Id] {
+        match self.raw(id) {
+            raw::Raw::Mapping(raw) => &raw.items,
+            raw::Raw::Sequence(raw) => &raw.items,
+            _ => &[],
+        }
+    }
+
+    /// Get the item which follows the given value in the document, whose prefix
+    /// is everything between the two. The last value is followed by the suffix
+    /// of the document.
+    fn next_item(&self, mut id: Id) -> Option<Id> {
+        loop {
+            let item = self.layout(id).parent?;
+            id = self.layout(item).parent?;
+
+            let mut items = self.items(id).iter().skip_while(|id| **id != item);
+
+            if let Some(next) = items.nth(1) {
+                return Some(*next);
+            }
+        }
+    }
+
+    /// Get everything between the given value and the next item, or the end of
+    /// the document.
+    pub(crate) fn following(&self, id: Id) -> &BStr {
+        match self.next_item(id) {
+            Some(id) => self.prefix(id),
+            None => self.suffix(),
+        }
+    }
+
+    /// Ensure that nothing becomes a part of the block that the item before the
+    /// given index in a collection might end with, after removing what used to
+    /// be at that index.
+    pub(crate) fn terminate(&mut self, id: Id, index: usize) {
+        let item = match index.checked_sub(1).and_then(|n| self.items(id).get(n)) {
+            Some(item) if !self.is_inline(id) => self.raw(*item),
+            _ => return,
+        };
+
+        let mut id = match item {
+            raw::Raw::MappingItem(raw) => raw.value,
+            raw::Raw::SequenceItem(raw) => raw.value,
+            _ => return,
+        };
+
+        let end = id;
+
+        while let Some(last) = self.items(id).last() {
+            if self.is_inline(id) {
+                return;
+            }
+
+            id = match self.raw(*last) {
+                raw::Raw::MappingItem(raw) => raw.value,
+                raw::Raw::SequenceItem(raw) => raw.value,
+                _ => return,
+            };
+        }
+
+        let indent = match self.collection(id).map(|id| self.raw(id)) {
+            Some(
+                raw::Raw::Mapping(raw::Mapping { indent, .. })
+                | raw::Raw::Sequence(raw::Sequence { indent, .. }),
+            ) => indent.saturating_add(1),
+            _ => 0,
+        };
+
+        let Some(terminator) = self.raw(id).terminator(self, indent) else {
+            return;
+        };
+
+        let following = self.following(end);
+
+        if terminator.accepts(following) {
+            return;
+        }
+
+        let following = terminator.repair(following);
+        let following = self.insert_str(following);
+
+        match self
+            .next_item(end)
+            .and_then(|id| self.slab.get_mut(id.get()))
+        {
+            Some(entry) => entry.layout.prefix = following,
+            None => self.suffix = Some(following),
+        }
+    }
+
     /// Test if there is anything but whitespace in the prefix of the given id.
     pub(crate) fn has_comment(&self, id: Id) -> bool {
         !self.prefix(id).trim().is_empty()
diff --git a/src/yaml/document.rs b/src/yaml/document.rs
index 4a680c1..73e3221 100644
--- a/src/yaml/document.rs
+++ b/src/yaml/document.rs
@@ -4,7 +4,7 @@ use std::io;
 #[cfg(feature = "serde-edits")]
 use serde::{Deserialize, Serialize};
 
-use crate::yaml::data::{Data, Id, StringId};
+use crate::yaml::data::{Data, Id};
 use crate::yaml::{Value, ValueMut};
 
 /// A whitespace preserving YAML document.
@@ -30,15 +30,14 @@ use crate::yaml::{Value, ValueMut};
 #[derive(Clone)]
 #[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
 pub struct Document {
-    suffix: StringId,
     pub(crate) root: Id,
     pub(crate) data: Data,
 }
 
 impl Document {
     /// Construct a new document.
-    pub(crate) fn new(suffix: StringId, root: Id, data: Data) -> Self {
-        Self { suffix, root, data }
+    pub(crate) fn new(root: Id, data: Data) -> Self {
+        Self { root, data }
     }
 
     /// Get the document as a [`Value`].
@@ -271,7 +270,7 @@ impl Document {
         self.data
             .raw(self.root)
             .write_to(&self.data, &mut output, None)?;
-        output.write_all(self.data.str(self.suffix))?;
+        output.write_all(self.data.suffix())?;
         Ok(())
     }
 
@@ -281,7 +280,7 @@ impl Document {
 
         self.data.prefix(self.root).fmt(f)?;
         self.data.raw(self.root).display(&self.data, f, None)?;
-        self.data.str(self.suffix).fmt(f)?;
+        self.data.suffix().fmt(f)?;
         Ok(())
     }
 }
@@ -332,7 +331,7 @@ impl fmt::Display for Document {
 impl fmt::Debug for Document {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         f.debug_struct("Document")
-            .field("suffix", &self.suffix)
+            .field("suffix", &self.data.suffix())
             .field("root", &self.root)
             .finish_non_exhaustive()
     }
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index a9b1ed4..c1ef128 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -147,20 +147,23 @@ impl<'a> MappingMut<'a> {
         self.data.insert_str(out)
     }
 
-    /// Insert a value into the mapping.
-    fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
-        let kind = raw::RawStringKind::detect(key);
-        let key = self.data.insert_str(key);
-
-        if let Some(id) = self
-            .data
+    /// Find the value with the given key.
+    fn find(&self, key: StringId) -> Option<Id> {
+        self.data
             .mapping(self.id)
             .items
             .iter()
             .map(|id| self.data.mapping_item(*id))
             .find(|item| item.key.id == key)
             .map(|item| item.value)
-        {
+    }
+
+    /// Insert a value into the mapping.
+    fn inner_insert(&mut self, key: &[u8], separator: Separator<'_>, value: Raw) -> Id {
+        let kind = raw::RawStringKind::detect(key);
+        let key = self.data.insert_str(key);
+
+        if let Some(id) = self.find(key) {
             self.data.replace_scalar(id, value);
             return id;
         }
@@ -436,6 +439,7 @@ impl<'a> MappingMut<'a> {
 
         let item = self.data.mapping_mut(self.id).items.remove(index);
         self.data.drop(item);
+        self.data.terminate(self.id, index);
         self.data.mapping_mut(self.id).trim_trailing();
         true
     }
@@ -670,7 +674,9 @@ impl<'a> MappingMut<'a> {
         I: IntoIterator,
         I::Item: AsRef<str>,
     {
-        let value = raw::new_block(self.data, self.id, Some(self.id), iter, block);
+        let id = self.data.insert_str(key.as_ref());
+        let id = self.find(id).unwrap_or(self.id);
+        let value = raw::new_block(self.data, id, Some(self.id), iter, block);
         self.inner_insert(key.as_ref(), Separator::Auto, value);
     }
 
diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index a0f1b0b..89b7dd3 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -125,7 +125,8 @@ impl<'a> Parser<'a> {
             return Err(Error::new(self.n..self.input.len(), ErrorKind::ExpectedEof));
         }
 
-        Ok(Document::new(suffix, root, self.data))
+        self.data.set_suffix(suffix);
+        Ok(Document::new(root, self.data))
     }
 
     /// Process document delimiter.
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index c6baf4a..3d20e24 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -190,8 +190,8 @@ where
     Raw::String(String::new(kind, string, string))
 }
 
-/// Construct a block with the given configuration, for a value in the given
-/// collection or for the root of the document with the given id.
+/// Construct a block with the given configuration, which either replaces the
+/// value with the given id, or is added to the end of the given collection.
 pub(crate) fn new_block<I>(
     data: &mut Data,
     id: Id,
@@ -253,7 +253,15 @@ where
         }
     }
 
-    let is_block = !collection.is_some_and(|id| data.is_inline(id)) && is_block(&out, block);
+    let terminator = Terminator {
+        indent: prefix.chars().count().saturating_add(indent),
+        newline: !matches!(chomp, Chomp::Strip),
+        keep: matches!(chomp, Chomp::Keep),
+    };
+
+    let is_block = !collection.is_some_and(|id| data.is_inline(id))
+        && is_block(&out, block)
+        && terminator.accepts(data.following(id));
 
     if let (Chomp::Clip | Chomp::Keep, false) = (chomp, out.is_empty()) {
         out.push(NEWLINE);
@@ -269,6 +277,75 @@ where
     Raw::String(self::String::new(RawStringKind::Original, string, original))
 }
 
+/// What may come after a block, without becoming a part of it.
+pub(crate) struct Terminator {
+    /// The indentation at which lines are a part of the block.
+    indent: usize,
+    /// If the block ends with a newline.
+    newline: bool,
+    /// If the block keeps the blank lines that come after it.
+    keep: bool,
+}
+
+impl Terminator {
+    /// Test if the given text can come after the block.
+    pub(crate) fn accepts(&self, following: &[u8]) -> bool {
+        let mut lines = following.split(|b| *b == NEWLINE).peekable();
+
+        if !matches!(lines.next(), None | Some([] | [b'\r'])) {
+            return false;
+        }
+
+        if lines.peek().is_none() {
+            return following.is_empty() && !self.newline;
+        }
+
+        let mut keep = self.keep;
+
+        while let Some(line) = lines.next() {
+            let text = line.trim_start();
+            let indent = line.len().saturating_sub(text.len());
+
+            if line[..indent].contains(&b'\t') {
+                return false;
+            }
+
+            if text.is_empty() {
+                // NB: the last line is where the next item starts.
+                if (keep && lines.peek().is_some()) || indent > self.indent {
+                    return false;
+                }
+            } else {
+                if indent >= self.indent {
+                    return false;
+                }
+
+                keep = false;
+            }
+        }
+
+        true
+    }
+
+    /// Remove as little as possible from the given text, for it to be able to
+    /// come after the block.
+    pub(crate) fn repair(&self, following: &[u8]) -> Vec<u8> {
+        let newlines = memchr::memchr_iter(NEWLINE, following);
+
+        for candidate in iter::once(0).chain(newlines).map(|n| &following[n..]) {
+            if self.accepts(candidate) {
+                return candidate.to_vec();
+            }
+        }
+
+        if self.newline || following.contains(&NEWLINE) {
+            return vec![NEWLINE];
+        }
+
+        Vec::new()
+    }
+}
+
 /// Test if the given text, without its final newline, can be written as a
 /// block and be read back as that very text.
 fn is_block(text: &[u8], block: Block) -> bool {
@@ -438,6 +515,38 @@ impl Raw {
         }
     }
 
+    /// Get what may come after the value, if it's a block.
+    pub(crate) fn terminator(&self, data: &Data, min_indent: usize) -> Option<Terminator> {
+        let Raw::String(raw) = self else {
+            return None;
+        };
+
+        let (header, lines) = match raw.kind {
+            RawStringKind::Multiline { prefix } => (data.str(prefix), data.str(raw.original)),
+            RawStringKind::Original => (data.str(raw.original), data.str(raw.original)),
+            _ => return None,
+        };
+
+        if !matches!(header.first(), Some(b'|' | b'>')) {
+            return None;
+        }
+
+        let indent = lines
+            .split(|b| *b == NEWLINE)
+            .skip(1)
+            .find_map(|line| {
+                line.iter()
+                    .position(|b| !matches!(*b, SPACE | b'\t' | b'\r'))
+            })
+            .unwrap_or(min_indent);
+
+        Some(Terminator {
+            indent,
+            newline: data.str(raw.id).ends_with(b"\n"),
+            keep: header.get(1) == Some(&b'+'),
+        })
+    }
+
     pub(crate) fn is_tabular(&self) -> bool {
         matches!(
             self,
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 396e510..16c8488 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -332,6 +332,7 @@ impl<'a> SequenceMut<'a> {
 
         let item = raw.items.remove(index);
         self.data.drop(item);
+        self.data.terminate(self.id, index);
         self.data.sequence_mut(self.id).trim_trailing();
         true
     }
-- 
2.43.0


From 744a9fa129ea94fe76b038b519ababf5f7de4936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:19 +0000
Subject: [PATCH 25/34] fix: keep the indentation and line ending of what
 follows a removed entry

---
 src/yaml/data.rs                  | 20 +++++++++++++++-----
 src/yaml/mapping/mapping_mut.rs   |  3 +--
 src/yaml/raw.rs                   | 17 ++++++++++-------
 src/yaml/sequence/sequence_mut.rs |  3 +--
 4 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index ca85eeb..84794e7 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -195,10 +195,20 @@ impl Data {
         }
     }
 
-    /// Ensure that nothing becomes a part of the block that the item before the
-    /// given index in a collection might end with, after removing what used to
-    /// be at that index.
-    pub(crate) fn terminate(&mut self, id: Id, index: usize) {
+    /// Drop an item which used to be at the given index of a collection, while
+    /// ensuring that nothing becomes a part of the block that the item before it
+    /// might end with.
+    pub(crate) fn drop_item(&mut self, id: Id, index: usize, item: Id) {
+        let newline = match self.prefix(item).find_byte(raw::NEWLINE) {
+            Some(n) if self.prefix(item)[..n].ends_with(b"\r") => &b"\r\n"[..],
+            _ => &b"\n"[..],
+        };
+
+        self.drop(item);
+        self.terminate(id, index, newline);
+    }
+
+    fn terminate(&mut self, id: Id, index: usize, newline: &[u8]) {
         let item = match index.checked_sub(1).and_then(|n| self.items(id).get(n)) {
             Some(item) if !self.is_inline(id) => self.raw(*item),
             _ => return,
@@ -242,7 +252,7 @@ impl Data {
             return;
         }
 
-        let following = terminator.repair(following);
+        let following = terminator.repair(following, newline);
         let following = self.insert_str(following);
 
         match self
diff --git a/src/yaml/mapping/mapping_mut.rs b/src/yaml/mapping/mapping_mut.rs
index c1ef128..7c54fd8 100644
--- a/src/yaml/mapping/mapping_mut.rs
+++ b/src/yaml/mapping/mapping_mut.rs
@@ -438,8 +438,7 @@ impl<'a> MappingMut<'a> {
         };
 
         let item = self.data.mapping_mut(self.id).items.remove(index);
-        self.data.drop(item);
-        self.data.terminate(self.id, index);
+        self.data.drop_item(self.id, index, item);
         self.data.mapping_mut(self.id).trim_trailing();
         true
     }
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 3d20e24..12bb54a 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -306,13 +306,15 @@ impl Terminator {
             let text = line.trim_start();
             let indent = line.len().saturating_sub(text.len());
 
-            if line[..indent].contains(&b'\t') {
+            // NB: the last line is where the next item starts.
+            let is_item = lines.peek().is_none();
+
+            if line[..indent].contains(&b'\t') && !is_item {
                 return false;
             }
 
             if text.is_empty() {
-                // NB: the last line is where the next item starts.
-                if (keep && lines.peek().is_some()) || indent > self.indent {
+                if (keep && !is_item) || indent > self.indent {
                     return false;
                 }
             } else {
@@ -328,9 +330,10 @@ impl Terminator {
     }
 
     /// Remove as little as possible from the given text, for it to be able to
-    /// come after the block.
-    pub(crate) fn repair(&self, following: &[u8]) -> Vec<u8> {
-        let newlines = memchr::memchr_iter(NEWLINE, following);
+    /// come after the block. If nothing of it can, use the given newline.
+    pub(crate) fn repair(&self, following: &[u8], newline: &[u8]) -> Vec<u8> {
+        let newlines = memchr::memchr_iter(NEWLINE, following)
+            .map(|n| n.saturating_sub(usize::from(following[..n].ends_with(b"\r"))));
 
         for candidate in iter::once(0).chain(newlines).map(|n| &following[n..]) {
             if self.accepts(candidate) {
@@ -339,7 +342,7 @@ impl Terminator {
         }
 
         if self.newline || following.contains(&NEWLINE) {
-            return vec![NEWLINE];
+            return newline.to_vec();
         }
 
         Vec::new()
diff --git a/src/yaml/sequence/sequence_mut.rs b/src/yaml/sequence/sequence_mut.rs
index 16c8488..e4e8833 100644
--- a/src/yaml/sequence/sequence_mut.rs
+++ b/src/yaml/sequence/sequence_mut.rs
@@ -331,8 +331,7 @@ impl<'a> SequenceMut<'a> {
         }
 
         let item = raw.items.remove(index);
-        self.data.drop(item);
-        self.data.terminate(self.id, index);
+        self.data.drop_item(self.id, index, item);
         self.data.sequence_mut(self.id).trim_trailing();
         true
     }
-- 
2.43.0


From 305b3deace20e1f33489ae6b46ae7c196b3feac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:43 +0000
Subject: [PATCH 26/34] fix: refuse integers which are out of range instead of
 wrapping them

---
 src/yaml/number.rs | 29 ++++++++++++++---------------
 src/yaml/raw.rs    | 19 +++++++++++++++++++
 src/yaml/value.rs  | 31 ++++++++++++++-----------------
 3 files changed, 47 insertions(+), 32 deletions(-)

diff --git a/src/yaml/number.rs b/src/yaml/number.rs
index 26d8a4c..78dcc2a 100644
--- a/src/yaml/number.rs
+++ b/src/yaml/number.rs
@@ -6,7 +6,7 @@ use crate::yaml::data::Data;
 use crate::yaml::raw;
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $parse:ident, $ty:ty, $doc:literal, $lit:literal) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -23,8 +23,7 @@ macro_rules! as_number {
         /// ```
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
-            let string = self.data.str(self.raw.string);
-            lexical_core::parse(string).ok()
+            self.raw.$parse(self.data)
         }
     };
 }
@@ -77,18 +76,18 @@ impl<'a> Number<'a> {
         self.data.str(self.raw.string)
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, parse_float, f32, "32-bit float", 10.42);
+    as_number!(as_f64, parse_float, f64, "64-bit float", 10.42);
+    as_number!(as_u8, parse_integer, u8, "8-bit unsigned integer", 42);
+    as_number!(as_i8, parse_integer, i8, "8-bit signed integer", -42);
+    as_number!(as_u16, parse_integer, u16, "16-bit unsigned integer", 42);
+    as_number!(as_i16, parse_integer, i16, "16-bit signed integer", -42);
+    as_number!(as_u32, parse_integer, u32, "16-bit unsigned integer", 42);
+    as_number!(as_i32, parse_integer, i32, "32-bit signed integer", -42);
+    as_number!(as_u64, parse_integer, u64, "16-bit unsigned integer", 42);
+    as_number!(as_i64, parse_integer, i64, "64-bit signed integer", -42);
+    as_number!(as_u128, parse_integer, u128, "16-bit unsigned integer", 42);
+    as_number!(as_i128, parse_integer, i128, "128-bit signed integer", -42);
 }
 
 impl fmt::Debug for Number<'_> {
diff --git a/src/yaml/raw.rs b/src/yaml/raw.rs
index 12bb54a..9f5edec 100644
--- a/src/yaml/raw.rs
+++ b/src/yaml/raw.rs
@@ -687,6 +687,25 @@ impl Number {
         Self { string, hint }
     }
 
+    /// Parse the number as a float.
+    pub(crate) fn parse_float<T>(&self, data: &Data) -> Option<T>
+    where
+        T: lexical_core::FromLexical,
+    {
+        lexical_core::parse(data.str(self.string)).ok()
+    }
+
+    /// Parse the number as an integer.
+    ///
+    /// This doesn't use `lexical_core`, since it wraps around for some numbers
+    /// which are out of range instead of refusing them.
+    pub(crate) fn parse_integer<T>(&self, data: &Data) -> Option<T>
+    where
+        T: core::str::FromStr,
+    {
+        data.str(self.string).to_str().ok()?.parse().ok()
+    }
+
     #[inline]
     fn display(&self, data: &Data, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", data.str(self.string))
diff --git a/src/yaml/value.rs b/src/yaml/value.rs
index 7d3423c..16e0615 100644
--- a/src/yaml/value.rs
+++ b/src/yaml/value.rs
@@ -141,7 +141,7 @@ pub struct Value<'a> {
 }
 
 macro_rules! as_number {
-    ($name:ident, $ty:ty, $doc:literal, $lit:literal) => {
+    ($name:ident, $parse:ident, $ty:ty, $doc:literal, $lit:literal) => {
         #[doc = concat!("Try and get the value as a ", $doc, ".")]
         ///
         /// # Examples
@@ -158,10 +158,7 @@ macro_rules! as_number {
         #[must_use]
         pub fn $name(&self) -> Option<$ty> {
             match self.data.raw(self.id) {
-                Raw::Number(raw) => {
-                    let string = self.data.str(raw.string);
-                    lexical_core::parse(string).ok()
-                }
+                Raw::Number(raw) => raw.$parse(self.data),
                 _ => None,
             }
         }
@@ -568,18 +565,18 @@ impl<'a> Value<'a> {
         }
     }
 
-    as_number!(as_f32, f32, "32-bit float", 10.42);
-    as_number!(as_f64, f64, "64-bit float", 10.42);
-    as_number!(as_u8, u8, "8-bit unsigned integer", 42);
-    as_number!(as_i8, i8, "8-bit signed integer", -42);
-    as_number!(as_u16, u16, "16-bit unsigned integer", 42);
-    as_number!(as_i16, i16, "16-bit signed integer", -42);
-    as_number!(as_u32, u32, "16-bit unsigned integer", 42);
-    as_number!(as_i32, i32, "32-bit signed integer", -42);
-    as_number!(as_u64, u64, "16-bit unsigned integer", 42);
-    as_number!(as_i64, i64, "64-bit signed integer", -42);
-    as_number!(as_u128, u128, "16-bit unsigned integer", 42);
-    as_number!(as_i128, i128, "128-bit signed integer", -42);
+    as_number!(as_f32, parse_float, f32, "32-bit float", 10.42);
+    as_number!(as_f64, parse_float, f64, "64-bit float", 10.42);
+    as_number!(as_u8, parse_integer, u8, "8-bit unsigned integer", 42);
+    as_number!(as_i8, parse_integer, i8, "8-bit signed integer", -42);
+    as_number!(as_u16, parse_integer, u16, "16-bit unsigned integer", 42);
+    as_number!(as_i16, parse_integer, i16, "16-bit signed integer", -42);
+    as_number!(as_u32, parse_integer, u32, "16-bit unsigned integer", 42);
+    as_number!(as_i32, parse_integer, i32, "32-bit signed integer", -42);
+    as_number!(as_u64, parse_integer, u64, "16-bit unsigned integer", 42);
+    as_number!(as_i64, parse_integer, i64, "64-bit signed integer", -42);
+    as_number!(as_u128, parse_integer, u128, "16-bit unsigned integer", 42);
+    as_number!(as_i128, parse_integer, i128, "128-bit signed integer", -42);
 }
 
 impl fmt::Display for Value<'_> {
-- 
2.43.0


From 332595c6a91056e84fc2a855f6bf7db9e64db2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:15 +0000
Subject: [PATCH 27/34] fix: keep comments out of the keys of inline mappings

---
 src/yaml/parsing.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yaml/parsing.rs b/src/yaml/parsing.rs
index 89b7dd3..7e33cbb 100644
--- a/src/yaml/parsing.rs
+++ b/src/yaml/parsing.rs
@@ -840,6 +840,11 @@ impl<'a> Parser<'a> {
                 [b':', ws!(b',' | b']' | b'}' | EOF)] => {
                     return Ok(Some(self.bare_key(start)));
                 }
+                // A comment is not a part of the key.
+                [ws!(), b'#'] => {
+                    self.ws();
+                    break;
+                }
                 [b':', _] => {
                     colon = colon.or(Some(self.n));
                     self.bump(1);
-- 
2.43.0


From 1b9e8db5d2931019f9fec466a148dd7f1298e2db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:53 +0000
Subject: [PATCH 28/34] fix: serialize numbers which don't fit their hint
 instead of null

---
 src/yaml/serde/ser.rs | 51 +++++++++++++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 12 deletions(-)

diff --git a/src/yaml/serde/ser.rs b/src/yaml/serde/ser.rs
index 6cc8218..73ca564 100644
--- a/src/yaml/serde/ser.rs
+++ b/src/yaml/serde/ser.rs
@@ -18,51 +18,51 @@ impl Serialize for Value<'_> {
             raw::Raw::Number(raw) => match raw.hint {
                 RawNumberHint::Float32 => match self.as_f32() {
                     Some(value) => serializer.serialize_f32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Float64 => match self.as_f64() {
                     Some(value) => serializer.serialize_f64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned8 => match self.as_u8() {
                     Some(value) => serializer.serialize_u8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned16 => match self.as_u16() {
                     Some(value) => serializer.serialize_u16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned32 => match self.as_u32() {
                     Some(value) => serializer.serialize_u32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned64 => match self.as_u64() {
                     Some(value) => serializer.serialize_u64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Unsigned128 => match self.as_u128() {
                     Some(value) => serializer.serialize_u128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed8 => match self.as_i8() {
                     Some(value) => serializer.serialize_i8(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed16 => match self.as_i16() {
                     Some(value) => serializer.serialize_i16(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed32 => match self.as_i32() {
                     Some(value) => serializer.serialize_i32(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed64 => match self.as_i64() {
                     Some(value) => serializer.serialize_i64(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
                 RawNumberHint::Signed128 => match self.as_i128() {
                     Some(value) => serializer.serialize_i128(value),
-                    None => serializer.serialize_none(),
+                    None => serialize_number(self, serializer),
                 },
             },
             raw::Raw::String(raw) => {
@@ -81,6 +81,33 @@ impl Serialize for Value<'_> {
     }
 }
 
+/// Serialize a number which doesn't fit its hint.
+fn serialize_number<S>(value: &Value<'_>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if let Some(value) = value.as_u64() {
+        return serializer.serialize_u64(value);
+    }
+
+    if let Some(value) = value.as_i64() {
+        return serializer.serialize_i64(value);
+    }
+
+    if let Some(value) = value.as_u128() {
+        return serializer.serialize_u128(value);
+    }
+
+    if let Some(value) = value.as_i128() {
+        return serializer.serialize_i128(value);
+    }
+
+    match value.as_f64() {
+        Some(value) => serializer.serialize_f64(value),
+        None => serializer.serialize_none(),
+    }
+}
+
 impl Serialize for Sequence<'_> {
     #[inline]
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
-- 
2.43.0


From 0233d3c61e2f9486791d3f889a238c6f2200fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:46 +0000
Subject: [PATCH 29/34] fix: deserialize numbers which don't fit their type or
 hint instead of overflowing the stack

---
 src/yaml/serde/de.rs | 82 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 14 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 5a146c4..a634f09 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -39,20 +39,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         match self.data.raw(self.id) {
             raw::Raw::Null(..) => visitor.visit_none(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
-            raw::Raw::Number(raw) => match raw.hint {
-                RawNumberHint::Float32 => self.deserialize_f32(visitor),
-                RawNumberHint::Float64 => self.deserialize_f64(visitor),
-                RawNumberHint::Unsigned8 => self.deserialize_u8(visitor),
-                RawNumberHint::Unsigned16 => self.deserialize_u16(visitor),
-                RawNumberHint::Unsigned32 => self.deserialize_u32(visitor),
-                RawNumberHint::Unsigned64 => self.deserialize_u64(visitor),
-                RawNumberHint::Unsigned128 => self.deserialize_u128(visitor),
-                RawNumberHint::Signed8 => self.deserialize_i8(visitor),
-                RawNumberHint::Signed16 => self.deserialize_i16(visitor),
-                RawNumberHint::Signed32 => self.deserialize_i32(visitor),
-                RawNumberHint::Signed64 => self.deserialize_i64(visitor),
-                RawNumberHint::Signed128 => self.deserialize_i128(visitor),
-            },
+            raw::Raw::Number(raw) => visit_number(&self, raw.hint, visitor),
             raw::Raw::String(raw) => {
                 let string = self.data.str(raw.id);
 
@@ -127,6 +114,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_i128() {
+            Some(value) => visitor.visit_i128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -171,6 +169,17 @@ impl<'de> Deserializer<'de> for Value<'de> {
         }
     }
 
+    #[inline]
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        match self.as_u128() {
+            Some(value) => visitor.visit_u128(value),
+            None => self.deserialize_any(visitor),
+        }
+    }
+
     #[inline]
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
@@ -380,6 +389,51 @@ impl<'de> Deserializer<'de> for Value<'de> {
     }
 }
 
+/// Visit a number as the first type which can hold it.
+fn visit_number<'de, V>(
+    value: &Value<'de>,
+    hint: RawNumberHint,
+    visitor: V,
+) -> Result<V::Value, Error>
+where
+    V: Visitor<'de>,
+{
+    match hint {
+        RawNumberHint::Float32 => {
+            if let Some(value) = value.as_f32() {
+                return visitor.visit_f32(value);
+            }
+        }
+        RawNumberHint::Float64 => {
+            if let Some(value) = value.as_f64() {
+                return visitor.visit_f64(value);
+            }
+        }
+        _ => {}
+    }
+
+    if let Some(value) = value.as_u64() {
+        return visitor.visit_u64(value);
+    }
+
+    if let Some(value) = value.as_i64() {
+        return visitor.visit_i64(value);
+    }
+
+    if let Some(value) = value.as_u128() {
+        return visitor.visit_u128(value);
+    }
+
+    if let Some(value) = value.as_i128() {
+        return visitor.visit_i128(value);
+    }
+
+    match value.as_f64() {
+        Some(value) => visitor.visit_f64(value),
+        None => Err(Error::custom("cannot deserialize number")),
+    }
+}
+
 struct BStrDeserializer<'de> {
     string: &'de BStr,
 }
-- 
2.43.0


From c5f716c3000af08f3d125ce7dd8cb2755eea6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:53 +0000
Subject: [PATCH 30/34] fix: deserialize units and newtypes

---
 src/yaml/serde/de.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index a634f09..16bfed3 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -37,7 +37,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         V: Visitor<'de>,
     {
         match self.data.raw(self.id) {
-            raw::Raw::Null(..) => visitor.visit_none(),
+            raw::Raw::Null(..) => visitor.visit_unit(),
             raw::Raw::Boolean(bool) => visitor.visit_bool(bool.value),
             raw::Raw::Number(raw) => visit_number(&self, raw.hint, visitor),
             raw::Raw::String(raw) => {
@@ -273,7 +273,10 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        match self.data.raw(self.id) {
+            raw::Raw::Null(..) => visitor.visit_unit(),
+            _ => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -285,7 +288,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        self.deserialize_unit(visitor)
     }
 
     #[inline]
@@ -297,7 +300,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
-- 
2.43.0


From 94776add93128a88dece9ad2079b303a8b5fc4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:14 +0000
Subject: [PATCH 31/34] fix: deserialize enums

---
 src/yaml/serde/de.rs | 82 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 77 insertions(+), 5 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 16bfed3..778579c 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -1,5 +1,9 @@
 use bstr::{BStr, ByteSlice};
-use serde::de::{self, Error as _, IntoDeserializer, MapAccess, SeqAccess, Visitor};
+use serde::de::value::MapAccessDeserializer;
+use serde::de::{
+    self, EnumAccess, Error as _, IntoDeserializer, MapAccess, SeqAccess, Unexpected,
+    VariantAccess, Visitor,
+};
 use serde::Deserializer;
 
 use crate::yaml::raw;
@@ -365,14 +369,24 @@ impl<'de> Deserializer<'de> for Value<'de> {
     #[inline]
     fn deserialize_enum<V>(
         self,
-        _: &'static str,
-        _: &'static [&'static str],
+        name: &'static str,
+        variants: &'static [&'static str],
         visitor: V,
     ) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        if let Some(mapping) = self.as_mapping() {
+            if mapping.len() == 1 {
+                let access = MappingIter::new(mapping.into_iter());
+                return visitor.visit_enum(MapAccessDeserializer::new(access));
+            }
+        }
+
+        match self.as_bstr() {
+            Some(string) => BStrDeserializer::new(string).deserialize_enum(name, variants, visitor),
+            None => self.deserialize_any(visitor),
+        }
     }
 
     #[inline]
@@ -687,7 +701,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_enum(self)
     }
 
     #[inline]
@@ -707,6 +721,64 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     }
 }
 
+/// The string is the name of a variant without content.
+impl<'de> EnumAccess<'de> for BStrDeserializer<'de> {
+    type Error = Error;
+    type Variant = UnitOnly;
+
+    #[inline]
+    fn variant_seed<V>(self, seed: V) -> Result<(V::Value, Self::Variant), Self::Error>
+    where
+        V: de::DeserializeSeed<'de>,
+    {
+        Ok((seed.deserialize(self)?, UnitOnly))
+    }
+}
+
+struct UnitOnly;
+
+impl<'de> VariantAccess<'de> for UnitOnly {
+    type Error = Error;
+
+    #[inline]
+    fn unit_variant(self) -> Result<(), Self::Error> {
+        Ok(())
+    }
+
+    #[inline]
+    fn newtype_variant_seed<T>(self, _: T) -> Result<T::Value, Self::Error>
+    where
+        T: de::DeserializeSeed<'de>,
+    {
+        Err(Error::invalid_type(
+            Unexpected::UnitVariant,
+            &"newtype variant",
+        ))
+    }
+
+    #[inline]
+    fn tuple_variant<V>(self, _: usize, _: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        Err(Error::invalid_type(
+            Unexpected::UnitVariant,
+            &"tuple variant",
+        ))
+    }
+
+    #[inline]
+    fn struct_variant<V>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        Err(Error::invalid_type(
+            Unexpected::UnitVariant,
+            &"struct variant",
+        ))
+    }
+}
+
 struct MappingIter<'de> {
     iter: mapping::Iter<'de>,
     value: Option<Value<'de>>,
-- 
2.43.0


From 61092f9701d1a2486ade2a90042ae10fefc7831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:21 +0000
Subject: [PATCH 32/34] fix: deserialize mapping keys as text, through options
 and newtypes too

---
 src/yaml/serde/de.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 778579c..574c428 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -470,7 +470,10 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        visitor.visit_bytes(self.string)
+        match self.string.to_str() {
+            Ok(string) => visitor.visit_borrowed_str(string),
+            Err(..) => visitor.visit_borrowed_bytes(self.string),
+        }
     }
 
     #[inline]
@@ -590,7 +593,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_borrowed_bytes(self.string)
     }
 
     #[inline]
@@ -598,7 +601,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_borrowed_bytes(self.string)
     }
 
     #[inline]
@@ -606,7 +609,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_some(self)
     }
 
     #[inline]
@@ -638,7 +641,7 @@ impl<'de> Deserializer<'de> for BStrDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        self.deserialize_any(visitor)
+        visitor.visit_newtype_struct(self)
     }
 
     #[inline]
-- 
2.43.0


From f41cd6aadffce899fe63080861408536eff8cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:06 +0000
Subject: [PATCH 33/34] fix: refuse sequences and mappings which are longer
 than the type they are deserialized into

---
 src/yaml/serde/de.rs | 46 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/yaml/serde/de.rs b/src/yaml/serde/de.rs
index 574c428..0c2d249 100644
--- a/src/yaml/serde/de.rs
+++ b/src/yaml/serde/de.rs
@@ -53,12 +53,8 @@ impl<'de> Deserializer<'de> for Value<'de> {
                     visitor.visit_borrowed_bytes(string)
                 }
             }
-            raw::Raw::Mapping(..) => visitor.visit_map(MappingIter::new(
-                Mapping::new(self.data, self.id).into_iter(),
-            )),
-            raw::Raw::Sequence(..) => visitor.visit_seq(SequenceIter::new(
-                Sequence::new(self.data, self.id).into_iter(),
-            )),
+            raw::Raw::Mapping(..) => visit_mapping(Mapping::new(self.data, self.id), visitor),
+            raw::Raw::Sequence(..) => visit_sequence(Sequence::new(self.data, self.id), visitor),
             _ => Err(Self::Error::custom("cannot deserialize items")),
         }
     }
@@ -313,7 +309,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         V: Visitor<'de>,
     {
         match self.as_sequence() {
-            Some(value) => visitor.visit_seq(SequenceIter::new(value.into_iter())),
+            Some(value) => visit_sequence(value, visitor),
             None => self.deserialize_any(visitor),
         }
     }
@@ -324,7 +320,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         V: Visitor<'de>,
     {
         match self.as_sequence() {
-            Some(value) => visitor.visit_seq(SequenceIter::new(value.into_iter())),
+            Some(value) => visit_sequence(value, visitor),
             None => self.deserialize_any(visitor),
         }
     }
@@ -348,7 +344,7 @@ impl<'de> Deserializer<'de> for Value<'de> {
         V: Visitor<'de>,
     {
         match self.as_mapping() {
-            Some(value) => visitor.visit_map(MappingIter::new(value.into_iter())),
+            Some(value) => visit_mapping(value, visitor),
             None => self.deserialize_any(visitor),
         }
     }
@@ -451,6 +447,38 @@ where
     }
 }
 
+/// Visit a sequence, all of which has to be visited.
+fn visit_sequence<'de, V>(sequence: Sequence<'de>, visitor: V) -> Result<V::Value, Error>
+where
+    V: Visitor<'de>,
+{
+    let len = sequence.len();
+    let mut access = SequenceIter::new(sequence.into_iter());
+    let value = visitor.visit_seq(&mut access)?;
+
+    if access.iter.len() > 0 {
+        return Err(Error::invalid_length(len, &"fewer elements in sequence"));
+    }
+
+    Ok(value)
+}
+
+/// Visit a mapping, all of which has to be visited.
+fn visit_mapping<'de, V>(mapping: Mapping<'de>, visitor: V) -> Result<V::Value, Error>
+where
+    V: Visitor<'de>,
+{
+    let len = mapping.len();
+    let mut access = MappingIter::new(mapping.into_iter());
+    let value = visitor.visit_map(&mut access)?;
+
+    if access.iter.len() > 0 {
+        return Err(Error::invalid_length(len, &"fewer entries in mapping"));
+    }
+
+    Ok(value)
+}
+
 struct BStrDeserializer<'de> {
     string: &'de BStr,
 }
-- 
2.43.0


From 6b14e876572135a4cf445c34813f999383aca6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:49 +0000
Subject: [PATCH 34/34] fix: save snapshots in formats whose keys have to be
 text

---
 src/yaml/data.rs | 64 +++++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 61 insertions(+), 3 deletions(-)

diff --git a/src/yaml/data.rs b/src/yaml/data.rs
index 84794e7..ef9e8bb 100644
--- a/src/yaml/data.rs
+++ b/src/yaml/data.rs
@@ -6,18 +6,76 @@ use std::num::NonZeroUsize;
 
 use bstr::{BStr, ByteSlice};
 #[cfg(feature = "serde-edits")]
-use serde::{Deserialize, Serialize};
+use serde::{de, Deserialize, Deserializer, Serialize, Serializer};
 use twox_hash::xxh3::{Hash128, HasherExt};
 
 use crate::yaml::raw;
 
 /// The unique hash of a string.
 #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
-#[cfg_attr(feature = "serde-edits", derive(Serialize, Deserialize))]
-#[cfg_attr(feature = "serde-edits", serde(transparent))]
 #[repr(transparent)]
 pub(crate) struct StringId([u8; 16]);
 
+/// Strings are stored by their identifier, which has to be text to be a key in
+/// formats such as JSON.
+#[cfg(feature = "serde-edits")]
+impl Serialize for StringId {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        if serializer.is_human_readable() {
+            serializer.collect_str(self)
+        } else {
+            self.0.serialize(serializer)
+        }
+    }
+}
+
+#[cfg(feature = "serde-edits")]
+impl<'de> Deserialize<'de> for StringId {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        struct StringIdVisitor;
+
+        impl<'de> de::Visitor<'de> for StringIdVisitor {
+            type Value = StringId;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                write!(f, "16 bytes or 32 hexadecimal digits")
+            }
+
+            fn visit_str<E>(self, string: &str) -> Result<Self::Value, E>
+            where
+                E: de::Error,
+            {
+                if string.len() != 32 || !string.bytes().all(|b| b.is_ascii_hexdigit()) {
+                    return Err(E::invalid_value(de::Unexpected::Str(string), &self));
+                }
+
+                match u128::from_str_radix(string, 16) {
+                    Ok(id) => Ok(StringId(id.to_be_bytes())),
+                    Err(..) => Err(E::invalid_value(de::Unexpected::Str(string), &self)),
+                }
+            }
+
+            fn visit_seq<A>(self, seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: de::SeqAccess<'de>,
+            {
+                let bytes = Deserialize::deserialize(de::value::SeqAccessDeserializer::new(seq))?;
+                Ok(StringId(bytes))
+            }
+        }
+
+        // NB: Parts of a document are buffered while they are deserialized, so
+        // whether the format is human readable is not known here.
+        deserializer.deserialize_any(StringIdVisitor)
+    }
+}
+
 impl fmt::Display for StringId {
     #[inline]
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
-- 
2.43.0

