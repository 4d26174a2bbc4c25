From e31ace79c31f29fd2834da9afb2a5938b601053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:09 +0000
Subject: [PATCH 01/44] fix: report success only when no issues were found

The command line tool printed 'OK; No issues found' and exited with 0 when
there were diagnostics, and exited with 1 for flawless files.
---
 ginko/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..21dcbd9 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -37,9 +37,9 @@ fn main() -> Result<(), Box<dyn Error>> {
     }
 
     if has_errors {
+        exit(1);
+    } else {
         println!("OK; No issues found");
         exit(0);
-    } else {
-        exit(1);
     }
 }
-- 
2.43.0


From 969988bbe4dc478ce2eacc76654cabcf3c97fcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/44] fix: analyze included files before the files including
 them

The pairwise swapping did not yield a topological order, so that
references into (nested) includes were reported as unresolved depending on
the iteration order of a hash map. It also panicked when an include was
not part of the project, for example because it names a directory, is not
valid UTF-8 or was closed in the editor.
---
 ginko/src/dts/project.rs | 51 ++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 25 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..6795c35 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -127,35 +127,36 @@ impl Project {
         }
     }
 
-    /// Computes the order in which files must be analyzed.
-    /// inefficient at the moment at O(n^3)
+    /// Computes the order in which files must be analyzed:
+    /// Included files come before all files that include them.
+    /// Includes that could not be loaded are ignored.
     fn compute_key_order(&self) -> Vec<PathBuf> {
-        let mut map: HashMap<_, Vec<_>> = HashMap::new();
-        for (path, file) in &self.files {
-            let Some(dts_file) = &file.file else { continue };
-            map.entry(path.clone()).or_default();
-            let includes = dts_file
-                .elements
-                .iter()
-                .filter_map(|el| el.as_include())
-                .map(|incl| incl.path())
-                .collect_vec();
-            for include in includes.into_iter().flatten() {
-                map.entry(include).or_default().push(path.clone())
+        let mut order = Vec::with_capacity(self.files.len());
+        let mut visited = HashSet::new();
+        // Depth-first traversal. The flag denotes whether all includes have been visited.
+        let mut stack = self.files.keys().map(|path| (path, false)).collect_vec();
+        while let Some((path, includes_visited)) = stack.pop() {
+            if includes_visited {
+                order.push(path.clone());
+                continue;
             }
-        }
-        // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
+            if !visited.insert(path) {
+                continue;
+            }
+            stack.push((path, true));
+            let Some(dts_file) = &self.files[path].file else {
+                continue;
+            };
+            for include in dts_file.elements.iter().filter_map(|el| el.as_include()) {
+                let included = include.path().ok();
+                if let Some((included, _)) =
+                    included.and_then(|path| self.files.get_key_value(&path))
+                {
+                    stack.push((included, false));
                 }
             }
         }
-        current_order
+        order
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-- 
2.43.0


From 8aa1cc0282ececa2ca05242cc4baded6c987e671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:30 +0000
Subject: [PATCH 03/44] fix: visit the files of a project in a stable order

The order in which the command line tool prints the diagnostics of
multiple files, the file that a cyclic include is reported in and the
order of published diagnostics depended on the seed of a hash map.
---
 ginko/src/dts/project.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 6795c35..12dfced 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -7,7 +7,7 @@ use crate::dts::tokens::Lexer;
 use crate::dts::visitor::ItemAtCursor;
 use crate::dts::{Diagnostic, FileType, HasSpan, Parser, ParserContext, Position, Severity, Span};
 use itertools::Itertools;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::iter::empty;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
@@ -73,7 +73,7 @@ impl ProjectFile {
 
 #[derive(Default)]
 pub struct Project {
-    files: HashMap<PathBuf, ProjectFile>,
+    files: BTreeMap<PathBuf, ProjectFile>,
     pub include_paths: Vec<PathBuf>,
     pub severities: SeverityMap,
 }
-- 
2.43.0


From 395e8132db1c52c7ead2f314568f7fe9579f8259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:51 +0000
Subject: [PATCH 04/44] fix: print diagnostics that span multiple lines

Printing such a diagnostic, for example a multi-line property that is
placed after a node, panicked in debug builds. In release builds, the
length of the marker underflowed.
---
 ginko/src/dts/diagnostics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..726b5b8 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,11 +197,13 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
+        // Diagnostics that span multiple lines are only marked in their first line.
+        let end_character = if start.line() == end.line() {
+            end.character()
         } else {
-            end.character() - start.character()
+            line.chars().count() as u32
         };
+        let len = end_character.saturating_sub(start.character()).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 8f9e111dbf6960fa26240ab5e1758900a8e80fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:05 +0000
Subject: [PATCH 05/44] fix: count characters in UTF-16 code units

Positions are documented to be equivalent to the position defined by the
LSP standard, but were counted in bytes. All positions following a
non-ASCII character in the same line were therefore wrong.
---
 ginko/src/dts/data.rs         |  1 +
 ginko/src/dts/diagnostics.rs  |  8 ++++++--
 ginko/src/dts/reader.rs       | 15 ++++++++++++++-
 ginko/src/dts/tokens/lexer.rs | 11 ++++++++++-
 4 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 89ef8e6..0599a8e 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -64,6 +64,7 @@ impl From<&Path> for FileType {
 }
 
 /// A source position, defined by its zero-based line offset and zero-based character offset.
+/// Characters are counted in UTF-16 code units.
 /// This is intentionally equivalent to the position defined by the LSP standard
 /// to make conversions easier.
 #[derive(Copy, Clone, Eq, PartialEq, Ord, PartialOrd)]
diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 726b5b8..9660271 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -179,10 +179,14 @@ impl<'a> DiagnosticPrinter<'a> {
             .unwrap_or(&empty_string)
             .clone();
         // take tabs into consideration
+        let mut column = 0;
         let line_empty: String = line
             .chars()
+            .take_while(|ch| {
+                column += ch.len_utf16() as u32;
+                column <= start.character()
+            })
             .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })
-            .take(start.character() as usize)
             .collect();
 
         let prefix = format!("{}", start.line() + 1);
@@ -201,7 +205,7 @@ impl<'a> DiagnosticPrinter<'a> {
         let end_character = if start.line() == end.line() {
             end.character()
         } else {
-            line.chars().count() as u32
+            line.encode_utf16().count() as u32
         };
         let len = end_character.saturating_sub(start.character()).max(1);
         write!(
diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..306122c 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -38,6 +38,16 @@ pub trait Reader {
     }
 }
 
+/// The number of UTF-16 code units of the character that starts with the given UTF-8 byte.
+/// Bytes that continue a character do not have a width on their own.
+fn utf16_width(byte: u8) -> u32 {
+    match byte {
+        0x80..=0xBF => 0,
+        0xF0..=0xFF => 2,
+        _ => 1,
+    }
+}
+
 pub struct ByteReader {
     data: Box<[u8]>,
     char_pos: usize,
@@ -52,7 +62,10 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
-            _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
+            _ => {
+                let width = utf16_width(ch);
+                self.pos = Position::new(self.pos.line(), self.pos.character() + width)
+            }
         }
         Some(ch)
     }
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..ce6e761 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -358,7 +358,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // An unknown token always comprises a whole character, not only its first byte
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From a2519bcff30f713de289d4313a0536e01bf467b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:06 +0000
Subject: [PATCH 06/44] fix: decode strings as UTF-8

Every byte of a string was treated as a separate character. As a result,
files with non-ASCII names could not be included.
---
 ginko/src/dts/tokens/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index ce6e761..113f4d5 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut str: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        str.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,12 +230,12 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        str.push(b'"');
                         is_escaped = false;
                     } else {
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
-                            kind: TokenKind::String(str),
+                            kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
                         });
                     }
@@ -244,7 +244,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    str.push(ch)
                 }
             }
         }
-- 
2.43.0


From 8327fd2cf42d5270acabb3957c4bb5ae02fcca5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 07/44] fix: do not silently ignore unterminated tokens

A comment, string or reference that is not terminated was treated as end
of file. At the top level, this means that an arbitrary part of the file
is not checked without any diagnostic.
---
 ginko/src/dts/tokens/lexer.rs | 60 +++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 23 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 113f4d5..f0b0e41 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -82,34 +82,44 @@ where
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
-    fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
-        match ch {
-            b'{' => {
+    fn path_or_reference(&mut self, start: Position) -> Token {
+        match self.reader.peek() {
+            Some(b'{') => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
-                Some(Token {
+                if self.reader.consume().is_none() {
+                    return self.unterminated(start, b'&');
+                }
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
                     source: self.source(),
-                })
+                }
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            Some(b'a'..=b'z' | b'A'..=b'Z') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-                Some(Token {
+                Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Simple(str)),
                     source: self.source(),
-                })
+                }
             }
-            _ => Some(Token {
+            _ => Token {
                 span: start.to(self.reader.pos()),
                 kind: TokenKind::Ref(Reference::Simple("".to_string())),
                 source: self.source(),
-            }),
+            },
+        }
+    }
+
+    /// A token that starts with the given character, but is still incomplete at the end of the file.
+    fn unterminated(&self, start: Position, ch: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(ch),
+            source: self.source(),
         }
     }
 
@@ -162,20 +172,22 @@ where
     // precondition: cursor is past first slash
     // /* comment */
     //  ^~~ cursor is here
-    fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
+    fn multi_line_comment(&mut self, pos: Position) -> Token {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, b'/');
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
                         self.reader.skip();
                         let str = String::from_utf8(buf).unwrap();
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::Comment(str),
                             source: self.source(),
-                        });
+                        };
                     } else {
                         buf.push(ch)
                     }
@@ -214,11 +226,13 @@ where
     // precondition: cursor is past first quote
     // "Hello, World!"
     //  ^~~ cursor is here
-    fn string(&mut self, pos: Position) -> Option<Token> {
+    fn string(&mut self, pos: Position) -> Token {
         let mut is_escaped: bool = false;
         let mut str: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return self.unterminated(pos, b'"');
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
@@ -233,11 +247,11 @@ where
                         str.push(b'"');
                         is_escaped = false;
                     } else {
-                        return Some(Token {
+                        return Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::String(String::from_utf8(str).unwrap()),
                             source: self.source(),
-                        });
+                        };
                     }
                 }
                 _ => {
@@ -306,11 +320,11 @@ where
             b'0'..=b'9' => Some(self.number(start_pos)),
             b'&' => {
                 self.reader.skip();
-                self.path_or_reference(start_pos)
+                Some(self.path_or_reference(start_pos))
             }
             b'"' => {
                 self.reader.skip();
-                self.string(start_pos)
+                Some(self.string(start_pos))
             }
             b'/' => {
                 self.reader.skip();
@@ -328,7 +342,7 @@ where
                     }
                     b'*' => {
                         self.reader.skip();
-                        self.multi_line_comment(start_pos)
+                        Some(self.multi_line_comment(start_pos))
                     }
                     b'a'..=b'z' | b'A'..=b'Z' => Some(self.compiler_directive(start_pos)),
                     _ => Some(Token {
-- 
2.43.0


From 07f380a3f35e857a1f9672caa149b421a21d15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:38 +0000
Subject: [PATCH 08/44] fix: accept references to labels that start with an
 underscore

Declaring such a label is allowed (and accepted).
---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index f0b0e41..e16cd4d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -96,7 +96,7 @@ where
                     source: self.source(),
                 }
             }
-            Some(b'a'..=b'z' | b'A'..=b'Z') => {
+            Some(b'a'..=b'z' | b'A'..=b'Z' | b'_') => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From f374e79460cb1d85caece65d835799d166a011d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:39 +0000
Subject: [PATCH 09/44] fix: name the expected token in 'Expected ...'
 diagnostics

Instead of the token that was expected, the one that was found was named.
---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index e16cd4d..98f89ed 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -467,7 +467,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From 91d033121d464f0c1a0c8207ab2087b5b7f1a284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:57 +0000
Subject: [PATCH 10/44] fix: report missing tokens next to the previous token

If there is a comment in between, they were reported at the end of that
comment, for example, several lines below the missing semicolon.
---
 ginko/src/dts/tokens/lexer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 98f89ed..0019b08 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -295,7 +295,6 @@ where
     }
 
     fn consume(&mut self) -> Option<Token> {
-        self.last_pos = self.pos();
         self.skip_whitespace();
         let ch = self.reader.peek()?;
         let start_pos = self.reader.pos();
@@ -517,6 +516,8 @@ where
     type Item = Token;
 
     fn next(&mut self) -> Option<Token> {
+        // Also applies if the token is preceded by comments
+        self.last_pos = self.pos();
         loop {
             let next = self.consume()?;
             if !matches!(next.kind, TokenKind::Comment(_)) {
-- 
2.43.0


From 8a259085c21ed0599f447ae295e12c02eaa06c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:58 +0000
Subject: [PATCH 11/44] fix: do not accept labels and directives that apply to
 nothing

A label or the /omit-if-no-ref/ directive was ignored when followed by the
closing brace of a node.
---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..86a41cc 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -508,7 +508,7 @@ where
             };
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
-                TokenKind::CloseBrace => {
+                TokenKind::CloseBrace if label.is_none() && omit_if_no_ref.is_none() => {
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From 39977eee5c1ee2132f326e563052b8c658ba3037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:41 +0000
Subject: [PATCH 12/44] fix: do not accept a sign within byte strings

For example, [ab+c] was accepted and treated like [ab0c].
---
 ginko/src/dts/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 86a41cc..29fc1dc 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -283,6 +283,15 @@ where
                     ));
                     return Ok(WithToken::new(vec![], tok));
                 }
+                // Integers may have a sign, but the elements of byte strings may not
+                if raw_str.contains('+') {
+                    self.diagnostics.push(Diagnostic::from_token(
+                        tok.clone(),
+                        ErrorCode::IntError,
+                        "invalid digit found in string",
+                    ));
+                    return Ok(WithToken::new(vec![], tok));
+                }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                 for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
                     match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
-- 
2.43.0


From 11031d5a9201b73859d2e13a48351291896f2065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:42 +0000
Subject: [PATCH 13/44] fix: accept hexadecimal numbers with an upper-case
 prefix

Numbers are C-style integers, which includes 0X10.
---
 ginko/src/dts/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 29fc1dc..2418600 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -196,7 +196,7 @@ where
             TokenKind::UnparsedNumber(num) => {
                 let num = if num.len() == 1 {
                     num.parse::<u32>()
-                } else if num.starts_with("0x") {
+                } else if num.starts_with("0x") || num.starts_with("0X") {
                     u32::from_str_radix(&num.as_str()[2..], 16)
                 } else if num.starts_with('0') {
                     u32::from_str_radix(&num.as_str()[1..], 8)
@@ -244,7 +244,7 @@ where
             TokenKind::UnparsedNumber(num) => {
                 let num = if num.len() == 1 {
                     num.parse::<u64>()
-                } else if num.starts_with("0x") {
+                } else if num.starts_with("0x") || num.starts_with("0X") {
                     u64::from_str_radix(&num.as_str()[2..], 16)
                 } else if num.starts_with('0') {
                     u64::from_str_radix(&num.as_str()[1..], 8)
-- 
2.43.0


From 8e2d9514170a94a9de5c65cf2ad4d8d2678b4a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:44 +0000
Subject: [PATCH 14/44] fix: respect the width of array elements given by
 /bits/

The elements of arrays were always treated as 32 bit wide, so that valid
64 bit elements were reported as errors and 8 or 16 bit elements that are
too large were not.
---
 ginko/src/dts/ast.rs    |  2 +-
 ginko/src/dts/parser.rs | 26 ++++++++++++++++++--------
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..ac91d40 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -191,7 +191,7 @@ impl Display for Reference {
 
 #[derive(Eq, PartialEq, Debug)]
 pub enum Cell {
-    Number(WithToken<u32>),
+    Number(WithToken<u64>),
     Reference(WithToken<Reference>),
     Expression,
 }
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 2418600..e04e316 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -187,21 +187,28 @@ where
         }
     }
 
-    fn number_u32(&mut self) -> Result<Cell> {
+    /// A single element of an array of the given width in bits
+    fn cell(&mut self, bits: u8) -> Result<Cell> {
         let tok = self.lexer.expect_next()?;
         match &tok.kind {
             TokenKind::Ref(reference) => {
                 Ok(Cell::Reference(self.reference(tok.clone(), reference)))
             }
             TokenKind::UnparsedNumber(num) => {
-                let num = if num.len() == 1 {
-                    num.parse::<u32>()
+                let (digits, radix) = if num.len() == 1 {
+                    (num.as_str(), 10)
                 } else if num.starts_with("0x") || num.starts_with("0X") {
-                    u32::from_str_radix(&num.as_str()[2..], 16)
+                    (&num.as_str()[2..], 16)
                 } else if num.starts_with('0') {
-                    u32::from_str_radix(&num.as_str()[1..], 8)
+                    (&num.as_str()[1..], 8)
                 } else {
-                    num.parse::<u32>()
+                    (num.as_str(), 10)
+                };
+                let num = match bits {
+                    8 => u8::from_str_radix(digits, radix).map(u64::from),
+                    16 => u16::from_str_radix(digits, radix).map(u64::from),
+                    64 => u64::from_str_radix(digits, radix),
+                    _ => u32::from_str_radix(digits, radix).map(u64::from),
                 };
                 match num {
                     Ok(num) => Ok(Cell::Number(WithToken::new(num, tok))),
@@ -356,6 +363,7 @@ where
     }
 
     pub fn property_value(&mut self) -> Result<PropertyValue> {
+        let mut bits = 32;
         if matches!(
             self.lexer.peek(),
             Some(Token {
@@ -365,7 +373,9 @@ where
         ) {
             self.skip_tok();
             let width = self.lexer.expect_next()?;
-            if !matches!(width.kind, TokenKind::UnparsedNumber(_)) {
+            if let TokenKind::UnparsedNumber(width) = &width.kind {
+                bits = width.parse().unwrap_or(bits);
+            } else {
                 self.diagnostics.push(Diagnostic::expected(
                     width.span(),
                     width.source(),
@@ -388,7 +398,7 @@ where
                         break;
                     }
 
-                    match self.number_u32() {
+                    match self.cell(bits) {
                         Ok(numb) => cells.push(numb),
                         Err(err) => self.diagnostics.push(err),
                     }
-- 
2.43.0


From d9a5fc61e8f64a8bfd4330dfbe5db88195fb3002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:03 +0000
Subject: [PATCH 15/44] fix: only find the references of directives at their
 position

The reference of a /delete-node/ or /omit-if-no-ref/ directive was found at
every position of the file that is not part of a previous item.
---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From d6c43cdd5f7fa1e512ea0bfe2e65a5b2bb76dcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 16/44] fix: report dts-v1 headers that follow a /delete-node/
 directive

---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..927b81e 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -145,6 +145,7 @@ impl Analysis {
                     }
                     AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
                     AnyDirective::DeletedNode(_, reference) => {
+                        ctx.first_non_include = true;
                         self.resolve_reference(&mut ctx, reference);
                     }
                 },
-- 
2.43.0


From ce583e5bf692b6ba8b5cfd38b653041f22dc3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:06 +0000
Subject: [PATCH 17/44] fix: report includes that cannot be found only once

---
 ginko/src/dts/analysis.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 927b81e..c5731c2 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -175,10 +175,8 @@ impl Analysis {
     fn analyze_include(&mut self, ctx: &mut FileContext<'_>, parent: &DtsFile, include: &Include) {
         let path = match include.path() {
             Ok(path) => path,
-            Err(err) => {
-                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+            // Has already been reported when parsing the file
+            Err(_) => return,
         };
         if let Err(err) = self
             .import_guard
-- 
2.43.0


From 6f2a86e1903524103ef4f9e70bd771bfd7d8c656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:07 +0000
Subject: [PATCH 18/44] fix: keep diagnostics that precede an unrecoverable
 error

All diagnostics that were already found in a file were dropped when the
parser encountered an error that it cannot recover from.
---
 ginko/src/dts/project.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 12dfced..7983cd1 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -261,8 +265,12 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                let mut diagnostics = parser.diagnostics;
+                diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From d70170865490ea2558ea071155a5947132d2c94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:21 +0000
Subject: [PATCH 19/44] fix: resolve labels of nodes that are declared multiple
 times

Labels of a node were forgotten when the node was declared again without
that label. Extending or deleting the node using the label was then
reported as an unresolved reference.
---
 ginko/src/dts/analysis.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index c5731c2..fa03a88 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -14,7 +14,8 @@ use std::sync::Arc;
 /// Used when analyzing a device-tree
 #[derive(Clone)]
 enum Labeled {
-    Node(Arc<Node>),
+    // The node and its path
+    Node(Arc<Node>, Path),
     #[allow(unused)]
     Property(Arc<Property>),
 }
@@ -47,7 +48,7 @@ pub struct AnalysisResult {
 impl AnalysisContext {
     pub fn get_node_by_label(&self, label: &str) -> Option<&Arc<Node>> {
         match self.labels.get(label) {
-            Some(Labeled::Node(node)) => Some(node),
+            Some(Labeled::Node(node, _)) => Some(node),
             _ => None,
         }
     }
@@ -82,9 +83,10 @@ impl FileContext<'_> {
     }
 
     pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+        match self.labels.get(label) {
+            Some(Labeled::Node(node, path)) => Some((path, node)),
+            _ => None,
+        }
     }
 }
 
@@ -279,8 +281,10 @@ impl Analysis {
 
     pub fn analyze_node(&mut self, ctx: &mut FileContext<'_>, node: Arc<Node>, path: Path) {
         if let Some(label) = &node.label {
-            ctx.labels
-                .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.labels.insert(
+                label.item().clone(),
+                Labeled::Node(node.clone(), path.clone()),
+            );
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 793b186836f3400ea7ae1c4a21514f9ea4802852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:22 +0000
Subject: [PATCH 20/44] fix: resolve referenced nodes in included files

The children of a node that is extended in an included file were treated
as children of the root node, so that a reference to their actual path was
reported as unresolved.
---
 ginko/src/dts/analysis.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index fa03a88..f5b9aa5 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -250,12 +250,8 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        // For includes where the referenced node is unknown, this is the 'root' path
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From 858e978ec21056de65e839ef91fedb771af80b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 21/44] fix: report illegal characters at their position

The position of illegal characters in unit addresses and path references
was relative to the start of the whole token.
---
 ginko/src/dts/data.rs   |  8 ++++++++
 ginko/src/dts/parser.rs | 36 ++++++++++++++++++++++++------------
 2 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 0599a8e..d5a88cf 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -135,6 +135,14 @@ impl Position {
         )
     }
 
+    /// Returns the position past the given text when the text starts at this position.
+    pub(crate) fn offset_by_str(&self, text: &str) -> Position {
+        text.chars().fold(*self, |pos, ch| match ch {
+            '\n' => Position::new(pos.line + 1, 0),
+            _ => Position::new(pos.line, pos.character + ch.len_utf16() as u32),
+        })
+    }
+
     /// Returns the zero-length span that is formed by this position repeated
     ///```
     /// use ginko::dts::{Position, Span};
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index e04e316..ef2280d 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -7,7 +7,7 @@ use crate::dts::diagnostics::{Diagnostic, NameContext};
 use crate::dts::error_codes::ErrorCode;
 use crate::dts::reader::{ByteReader, Reader};
 use crate::dts::tokens::{CompilerDirective, Lexer, PeekingLexer, Reference, Token, TokenKind};
-use crate::dts::HasSpan;
+use crate::dts::{HasSpan, Position};
 use itertools::Itertools;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
@@ -70,9 +70,12 @@ where
         let _ = self.lexer.next();
     }
 
+    /// Checks that the name `str`, which starts at `start`, is valid.
+    /// `span` is the span of the token that contains the name.
     fn check_ident<F1, F2>(
         &mut self,
         span: Span,
+        start: Position,
         str: &str,
         predicate: F1,
         starting_chars: F2,
@@ -81,9 +84,9 @@ where
         F1: Fn(char) -> bool,
         F2: FnMut(char) -> bool,
     {
-        if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
+        if let Some((pos, ch)) = str.char_indices().find(|(_, ch)| !predicate(*ch)) {
             self.diagnostics.push(Diagnostic::new(
-                span.start().offset_by_char(pos as i32).as_char_span(),
+                start.offset_by_str(&str[..pos]).as_char_span(),
                 self.lexer.source(),
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
@@ -118,9 +121,10 @@ where
         }
     }
 
-    fn check_is_label(&mut self, span: Span, str: &str) {
+    fn check_is_label(&mut self, span: Span, start: Position, str: &str) {
         self.check_ident(
             span,
+            start,
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_'),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '_'),
@@ -128,12 +132,13 @@ where
         )
     }
 
-    fn check_is_node_name(&mut self, span: Span, name: &NodeName) {
+    fn check_is_node_name(&mut self, span: Span, start: Position, name: &NodeName) {
         if name.unit_address.is_none() && name.name == "__symbols__" {
             return;
         }
         self.check_ident(
             span,
+            start,
             name.name.as_str(),
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
             |ch| ch.is_ascii_alphabetic(),
@@ -142,6 +147,7 @@ where
         if let Some(unit_address) = &name.unit_address {
             self.check_ident(
                 span,
+                start.offset_by_str(&name.name).offset_by_str("@"),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -153,6 +159,7 @@ where
     fn check_is_property_name(&mut self, span: Span, str: &str) {
         self.check_ident(
             span,
+            span.start(),
             str,
             |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-' | '?' | '#'),
             |_| true,
@@ -167,7 +174,8 @@ where
     ) -> WithToken<crate::dts::ast::Reference> {
         match reference {
             Reference::Simple(reference) => {
-                self.check_is_label(token.span, reference);
+                let start = token.start().offset_by_str("&");
+                self.check_is_label(token.span, start, reference);
                 WithToken::new(crate::dts::ast::Reference::Label(reference.clone()), token)
             }
             Reference::Path(path) => {
@@ -178,10 +186,14 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                let mut start = token.start().offset_by_str("&{");
+                for element in path.split('/') {
+                    if !element.is_empty() {
+                        self.check_is_node_name(token.span(), start, &NodeName::from(element));
+                    }
+                    start = start.offset_by_str(element).offset_by_str("/");
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
@@ -480,7 +492,7 @@ where
         let tok = self.lexer.expect_next()?;
         if let TokenKind::Ident(value) = tok.kind.clone() {
             let node_name = NodeName::from(value);
-            self.check_is_node_name(tok.span(), &node_name);
+            self.check_is_node_name(tok.span(), tok.start(), &node_name);
             return Ok(WithToken::new(node_name, tok));
         }
         Err(Diagnostic::expected(
@@ -517,7 +529,7 @@ where
                 };
             let (tok, label) = match &tok.kind {
                 TokenKind::Label(string) => {
-                    self.check_is_label(tok.span(), string);
+                    self.check_is_label(tok.span(), tok.start(), string);
                     (
                         self.lexer.expect_next()?,
                         Some(WithToken::new(string.clone(), tok)),
@@ -545,7 +557,7 @@ where
                 TokenKind::OpenBrace => {
                     node_discovered = true;
                     let node_name: WithToken<NodeName> = From::from(ident);
-                    self.check_is_node_name(node_name.span(), &node_name);
+                    self.check_is_node_name(node_name.span(), node_name.start(), &node_name);
                     let payload = self.node_payload()?;
                     items.push(NodeItem::Node(Arc::new(Node {
                         omit_if_no_ref,
-- 
2.43.0


From 7d6a266ad7be42fdbfe4435a8194a61fd6aa4c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:38 +0000
Subject: [PATCH 22/44] fix: limit the nesting depth of nodes

---
 ginko/src/dts/parser.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index ef2280d..d8daa00 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -17,6 +17,11 @@ pub struct ParserContext {
     pub include_paths: Vec<PathBuf>,
 }
 
+/// The maximum number of nodes that may be nested.
+/// Nodes are parsed, analyzed and visited recursively. The limit ensures that no file,
+/// regardless of its contents, can exhaust the stack.
+const MAX_NODE_DEPTH: usize = 128;
+
 /// The `Parser` class is responsible for syntactical analysis,
 /// transforming the input token stream into an AST.
 pub struct Parser<R>
@@ -26,6 +31,7 @@ where
     lexer: PeekingLexer<R>,
     pub diagnostics: Vec<Diagnostic>,
     pub context: ParserContext,
+    node_depth: usize,
 }
 
 type Result<T> = std::result::Result<T, Diagnostic>;
@@ -39,6 +45,7 @@ where
             lexer: PeekingLexer::from(lexer),
             diagnostics: vec![],
             context,
+            node_depth: 0,
         }
     }
 }
@@ -54,6 +61,7 @@ impl Parser<ByteReader> {
             lexer: lexer.into(),
             diagnostics: vec![],
             context,
+            node_depth: 0,
         }
     }
 }
@@ -504,7 +512,15 @@ where
 
     pub fn node_payload(&mut self) -> Result<NodePayload> {
         let end: Token;
-        self.lexer.expect(TokenKind::OpenBrace)?;
+        let open_brace = self.lexer.expect(TokenKind::OpenBrace)?;
+        if self.node_depth == MAX_NODE_DEPTH {
+            return Err(Diagnostic::from_token(
+                open_brace,
+                ErrorCode::ParserError,
+                format!("Nodes cannot be nested more than {MAX_NODE_DEPTH} levels deep"),
+            ));
+        }
+        self.node_depth += 1;
         let mut items: Vec<NodeItem> = vec![];
         let mut node_discovered = false;
         loop {
@@ -631,6 +647,7 @@ where
                 }
             }
         }
+        self.node_depth -= 1;
         Ok(NodePayload { items, end })
     }
 
-- 
2.43.0


From 8f61f4231bafab05caea4e505e2689ca7b733ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:20 +0000
Subject: [PATCH 23/44] fix: do not panic for files that are not present on
 disk

---
 ginko/src/dts/project.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 7983cd1..62cfdc1 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -107,10 +107,9 @@ impl Project {
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
     ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
+    /// The file does not have to exist on disk.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = Self::file_key(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -164,9 +163,13 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&Self::file_key(path));
+    }
+
+    /// The path that identifies a file within the project.
+    /// Files that do not exist on disk are identified by the path that they were added with.
+    fn file_key(path: &Path) -> PathBuf {
+        dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -299,10 +302,7 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&Self::file_key(path))
     }
 }
 
-- 
2.43.0


From aca6bcaee2b0ed87fb653fccff5129b00cbeb1cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:39 +0000
Subject: [PATCH 24/44] fix: apply the last of multiple content changes

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..156435c 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Changes contain the full text of the document and are applied in order
+        let Some(change) = params.content_changes.into_iter().last() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From f7b811cc0de160d6403947ff49f6e41fca4cc68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 25/44] fix: apply changed include paths to files that are
 already present

---
 ginko/src/dts/project.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 62cfdc1..80ef3b2 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -83,11 +83,14 @@ pub struct Project {
 }
 
 impl Project {
+    /// Sets the paths that are searched for include files.
+    /// Re-evaluates all files that are already present.
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
             .map(|path| dunce::canonicalize(path).unwrap_or_default())
             .collect::<Vec<PathBuf>>();
+        self.reevaluate_files();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
@@ -113,7 +116,20 @@ impl Project {
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
+        self.analyze_files();
+    }
+
+    /// Parses and analyzes all files again.
+    /// Necessary whenever includes may resolve to different files than before.
+    fn reevaluate_files(&mut self) {
+        for path in self.files.keys().cloned().collect_vec() {
+            let file = &self.files[&path];
+            self.parse_file(path, file.source.clone(), file.file_type);
+        }
+        self.analyze_files();
+    }
 
+    fn analyze_files(&mut self) {
         let keys = self.compute_key_order();
 
         let mut analysis = Analysis::new();
-- 
2.43.0


From 9f5dd1597804b83cf9fb5cb9c397460c6adb2642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:43 +0000
Subject: [PATCH 26/44] fix: update files that include a closed file

---
 ginko/src/dts/project.rs | 3 +++
 ginko_ls/src/server.rs   | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 80ef3b2..f837a20 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -178,8 +178,11 @@ impl Project {
         order
     }
 
+    /// Removes a file from the project.
+    /// If the file is included by other files, its contents are read from disk again.
     pub fn remove_file(&mut self, path: &Path) {
         self.files.remove(&Self::file_key(path));
+        self.reevaluate_files();
     }
 
     /// The path that identifies a file within the project.
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 156435c..04aa810 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -173,6 +173,13 @@ impl LanguageServer for Backend {
             return;
         };
         self.project.write().remove_file(&file_path);
+        self.publish_diagnostics().await;
+        if self.project.read().get_file(&file_path).is_none() {
+            // Clear all diagnostics that were published while the file was open
+            if let Ok(url) = Url::from_file_path(&file_path) {
+                self.client.publish_diagnostics(url, vec![], None).await
+            }
+        }
     }
 
     async fn goto_definition(
-- 
2.43.0


From 77d890089149ae1a984323e4ea83fd53cbbe7cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:06 +0000
Subject: [PATCH 27/44] fix: go to the start of included files

---
 ginko_ls/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 04aa810..00200f9 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -213,9 +213,10 @@ impl LanguageServer for Backend {
                     .ok()
                     .and_then(|path| Url::from_file_path(path).ok())
                 {
+                    // An include refers to the whole file
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0


From c5ceacf906eb7814bea55fd327ac7b55447e7050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:08 +0000
Subject: [PATCH 28/44] fix: respect include paths passed to the language
 server

---
 ginko_ls/src/main.rs   |  6 ++++--
 ginko_ls/src/server.rs | 14 +++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..57b8854 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let args = Args::parse();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,8 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let includes = args.include.unwrap_or_default();
+    let (service, socket) =
+        LspService::new(|client| server::Backend::new(client, includes.clone()));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 00200f9..21a0fa9 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -16,12 +16,15 @@ pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
     severities: SeverityMap,
+    /// Include paths that are always present, regardless of the configuration
+    includes: Vec<String>,
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, includes: Vec<String>) -> Backend {
         Backend {
             client,
+            includes,
             project: RwLock::new(Project::default()),
             severities: SeverityMap::default(),
         }
@@ -70,6 +73,11 @@ impl Backend {
         }
     }
 
+    fn configure(&self, config: ProjectConfig) {
+        let includes = self.includes.iter().cloned().chain(config.includes);
+        self.project.write().set_include_paths(includes.collect());
+    }
+
     async fn url_to_file_path(&self, url: Url) -> Option<PathBuf> {
         match url.to_file_path() {
             Ok(path) => Some(path),
@@ -110,7 +118,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -128,7 +136,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.configure(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From e03d5bd82460cdf39d1441999650dab1ea98854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:09 +0000
Subject: [PATCH 29/44] fix: ignore include paths that do not exist

---
 ginko/src/dts/project.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index f837a20..d849830 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -88,7 +88,7 @@ impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .filter_map(|path| dunce::canonicalize(path).ok())
             .collect::<Vec<PathBuf>>();
         self.reevaluate_files();
     }
-- 
2.43.0


From d4a7e195be915561546558ca1873d1cc7c82a8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:32 +0000
Subject: [PATCH 30/44] verif: expose the AST to verification tools (cfg
 ginko_verif)

---
 ginko/src/dts/ast.rs |  5 +++++
 ginko/src/dts/mod.rs | 10 ++++++++++
 ginko/src/lib.rs     |  2 ++
 3 files changed, 17 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index ac91d40..5a590da 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -412,6 +412,11 @@ impl Memreserve {
     pub fn new(address: WithToken<u64>, length: WithToken<u64>) -> Memreserve {
         Memreserve { address, length }
     }
+
+    #[cfg(ginko_verif)]
+    pub fn verif_parts(&self) -> (u64, u64) {
+        (*self.address, *self.length)
+    }
 }
 
 impl Display for Memreserve {
diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 0ea2ce3..0b93ee2 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -21,3 +21,13 @@ pub use parser::Parser;
 pub use parser::ParserContext;
 pub use project::Project;
 pub use visitor::ItemAtCursor;
+
+/// Exposes the types of the AST to verification tools.
+/// Only available with `RUSTFLAGS="--cfg ginko_verif"`.
+#[cfg(ginko_verif)]
+pub mod verif {
+    pub use super::ast::{
+        Cell, DtsFile, Include, Memreserve, NodeName, Path, Property, PropertyValue, Reference,
+        ReferencedNode,
+    };
+}
diff --git a/ginko/src/lib.rs b/ginko/src/lib.rs
index 664d030..f1eeaf0 100644
--- a/ginko/src/lib.rs
+++ b/ginko/src/lib.rs
@@ -1,2 +1,4 @@
+// `ginko_verif` exposes internals to verification tools
+#![allow(unexpected_cfgs)]
 #![warn(rust_2018_idioms)]
 pub mod dts;
-- 
2.43.0


From 622cd36b2c114c3e0df9d706924db674f878dfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:29 +0000
Subject: [PATCH 31/44] fix: report the same include cycle on every run

---
 ginko/src/dts/import_guard.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..30b5bad 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -25,7 +25,8 @@ pub struct ImportGuard<V>
 where
     V: Hash + Eq + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    // The dependencies in the order that they were added, so that the same cycle is always found
+    nodes: HashMap<V, Vec<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
@@ -41,11 +42,11 @@ where
     /// * `element` The node that contains dependencies
     /// * `dependencies` The dependencies of the element.
     pub fn add(&mut self, element: V, dependencies: &[V]) -> Result<(), CyclicDependencyError<V>> {
-        self.nodes
-            .entry(element.clone())
-            .or_default()
-            .extend(dependencies.iter().cloned());
+        let known_dependencies = self.nodes.entry(element.clone()).or_default();
         for dependency in dependencies {
+            if !known_dependencies.contains(dependency) {
+                known_dependencies.push(dependency.clone());
+            }
             self.back_track
                 .entry(dependency.clone())
                 .or_default()
-- 
2.43.0


From e75be68c97780c0748cd2aa5e3d78d923c810436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:23 +0000
Subject: [PATCH 32/44] fix: report a missing number of /memreserve/ at the
 unexpected token

---
 ginko/src/dts/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index d8daa00..3013b8c 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -291,8 +291,8 @@ where
                 }
             }
             _ => Err(Diagnostic::expected(
-                self.lexer.last_pos().offset_by_char(1).as_span(),
-                self.lexer.source(),
+                tok.span(),
+                tok.source(),
                 &[TokenKind::UnparsedNumber("".to_string())],
             )),
         }
-- 
2.43.0


From abd303777b9491e95dfde0edfc1d851fd45b4d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 33/44] fix: print the bytes of byte strings with two digits
 each

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 5a590da..667e8aa 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -258,7 +258,7 @@ impl Display for PropertyValue {
                 write!(f, "[")?;
                 for (i, numbers) in strings.iter().enumerate() {
                     for num in &numbers.item {
-                        write!(f, "{num:2x}")?;
+                        write!(f, "{num:02x}")?;
                     }
                     if i != strings.len() - 1 {
                         write!(f, " ")?;
-- 
2.43.0


From 1474835671dbd411a54b1f1fd3f55e98b1670f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 34/44] fix: escape quotes and backslashes in printed strings

---
 ginko/src/dts/ast.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 667e8aa..91759c5 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -206,6 +206,12 @@ impl Display for Cell {
     }
 }
 
+/// Writes a string as it appears in the source, i.e., quoted and escaped
+fn write_string(f: &mut Formatter<'_>, string: &str) -> std::fmt::Result {
+    let escaped = string.replace('\\', "\\\\").replace('"', "\\\"");
+    write!(f, "\"{escaped}\"")
+}
+
 // LRM 2.2.4 Property Values
 #[derive(Eq, PartialEq, Debug)]
 pub enum PropertyValue {
@@ -240,9 +246,7 @@ impl HasSource for PropertyValue {
 impl Display for PropertyValue {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match &self {
-            PropertyValue::String(string) => {
-                write!(f, "\"{string}\"")
-            }
+            PropertyValue::String(string) => write_string(f, string),
             PropertyValue::Cells(_, numbers, _) => {
                 write!(f, "<")?;
                 for (i, num) in numbers.iter().enumerate() {
@@ -471,7 +475,8 @@ impl HasSource for Include {
 
 impl Display for Include {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
-        write!(f, "/include/ \"{}\"", self.file_name)
+        write!(f, "/include/ ")?;
+        write_string(f, &self.file_name)
     }
 }
 
-- 
2.43.0


From a80021643616855583a5a92ae30a786dc9404a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:35 +0000
Subject: [PATCH 35/44] fix: print the labels of properties

---
 ginko/src/dts/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 91759c5..02778da 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -326,6 +326,9 @@ impl Property {
 
 impl Display for Property {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if let Some(label) = &self.label {
+            write!(f, "{}: ", label.item)?;
+        }
         if self.values.is_empty() {
             writeln!(f, "{};", self.name)
         } else {
-- 
2.43.0


From 1eaf9edf9906c1ceaccf9a60e962f81357df07a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 36/44] fix: print the semicolon after deleted nodes and
 properties

---
 ginko/src/dts/ast.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 02778da..e6c9206 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -365,9 +365,9 @@ impl Display for NodeItem {
         match self {
             NodeItem::Property(property) => write!(f, "{}", property),
             NodeItem::Node(node) => write!(f, "{}", node),
-            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {}", node_name),
+            NodeItem::DeletedNode(_, node_name) => write!(f, "/delete-node/ {};", node_name),
             NodeItem::DeletedProperty(_, property_name) => {
-                write!(f, "/delete-property/ {}", property_name)
+                write!(f, "/delete-property/ {};", property_name)
             }
         }
     }
-- 
2.43.0


From 880ba55795ad8def097111c9f46156f9ece219e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 37/44] fix: print /omit-if-no-ref/ before nodes

---
 ginko/src/dts/ast.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index e6c9206..6fcabff 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -402,6 +402,9 @@ impl HasSpan for Node {
 
 impl Display for Node {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        if self.omit_if_no_ref.is_some() {
+            write!(f, "/omit-if-no-ref/ ")?;
+        }
         if let Some(label) = &self.label {
             write!(f, "{}: ", label.item)?;
         }
-- 
2.43.0


From 9339237f299af225c6f5cd0b2f01d5f7cd533321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 38/44] fix: print one semicolon after memory reservations

---
 ginko/src/dts/ast.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 6fcabff..69db972 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -515,7 +515,7 @@ impl Display for AnyDirective {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         match self {
             AnyDirective::DtsHeader(_) => write!(f, "/dts-v1/;"),
-            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve};"),
+            AnyDirective::Memreserve(memreserve) => write!(f, "{memreserve}"),
             AnyDirective::Include(include) => write!(f, "{include}"),
             AnyDirective::Plugin(_) => write!(f, "/plugin/;"),
             AnyDirective::DeletedNode(_, reference) => write!(f, "/delete-node/ {reference};"),
-- 
2.43.0


From 232f97ca743aaf5d0879b04650820550e3478422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 39/44] fix: print the width of cells that exceed 32 bits

---
 ginko/src/dts/ast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index 69db972..19c287b 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -248,6 +248,12 @@ impl Display for PropertyValue {
         match &self {
             PropertyValue::String(string) => write_string(f, string),
             PropertyValue::Cells(_, numbers, _) => {
+                // The default width of 32 bits is not sufficient for these
+                if numbers.iter().any(
+                    |cell| matches!(cell, Cell::Number(num) if *num.item() > u64::from(u32::MAX)),
+                ) {
+                    write!(f, "/bits/ 64 ")?;
+                }
                 write!(f, "<")?;
                 for (i, num) in numbers.iter().enumerate() {
                     write!(f, "{num}")?;
-- 
2.43.0


From b1692c2ea3a0741f6cdc3a64056c609320b015d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:42 +0000
Subject: [PATCH 40/44] fix: identify documents that were never saved by the
 path they will have

A document that does not exist on disk was identified by the path that it was
opened with. If that path leads through a symbolic link, the document was
another file of the project as soon as it was saved.
---
 ginko/src/dts/project.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index d849830..354c86e 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -186,9 +186,16 @@ impl Project {
     }
 
     /// The path that identifies a file within the project.
-    /// Files that do not exist on disk are identified by the path that they were added with.
+    /// Files that do not exist on disk are identified by the path
+    /// that they will have when they are saved.
     fn file_key(path: &Path) -> PathBuf {
-        dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+        if let Ok(path) = dunce::canonicalize(path) {
+            return path;
+        }
+        match (path.parent().map(dunce::canonicalize), path.file_name()) {
+            (Some(Ok(parent)), Some(name)) => parent.join(name),
+            _ => path.to_owned(),
+        }
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
-- 
2.43.0


From a34939f97dd92e5fb38797a498d4b83a9c1c2906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:56 +0000
Subject: [PATCH 41/44] fix: clear the diagnostics of documents that were
 opened through a link

Diagnostics are published for the real path of a file. When the document was
closed, they were cleared for the path that it was opened with only.
---
 ginko_ls/src/server.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 21a0fa9..4defae0 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -180,11 +180,21 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Diagnostics are published for the real paths of the files
+        let files = self
+            .project
+            .read()
+            .files()
+            .map(|file| file.to_owned())
+            .collect_vec();
         self.project.write().remove_file(&file_path);
         self.publish_diagnostics().await;
-        if self.project.read().get_file(&file_path).is_none() {
+        for file in files {
+            if self.project.read().get_file(&file).is_some() {
+                continue;
+            }
             // Clear all diagnostics that were published while the file was open
-            if let Ok(url) = Url::from_file_path(&file_path) {
+            if let Ok(url) = Url::from_file_path(&file) {
                 self.client.publish_diagnostics(url, vec![], None).await
             }
         }
-- 
2.43.0


From 86cda0ffbb62394836512a8e6734c95437236eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:56 +0000
Subject: [PATCH 42/44] fix: look for includes again when a document is saved

A file that includes a document that was never saved before reported that the
document cannot be read, until it was changed itself.
---
 ginko/src/dts/project.rs | 2 +-
 ginko_ls/src/server.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 354c86e..edf9eab 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -121,7 +121,7 @@ impl Project {
 
     /// Parses and analyzes all files again.
     /// Necessary whenever includes may resolve to different files than before.
-    fn reevaluate_files(&mut self) {
+    pub fn reevaluate_files(&mut self) {
         for path in self.files.keys().cloned().collect_vec() {
             let file = &self.files[&path];
             self.parse_file(path, file.source.clone(), file.file_type);
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 4defae0..1e1f57b 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -174,7 +174,11 @@ impl LanguageServer for Backend {
         self.publish_diagnostics().await
     }
 
-    async fn did_save(&self, _: DidSaveTextDocumentParams) {}
+    async fn did_save(&self, _: DidSaveTextDocumentParams) {
+        // Includes may lead to the saved file from now on
+        self.project.write().reevaluate_files();
+        self.publish_diagnostics().await
+    }
 
     async fn did_close(&self, params: DidCloseTextDocumentParams) {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
-- 
2.43.0


From 1fc5efd18f7cf8db9cc37c46a4756af851419b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:30 +0000
Subject: [PATCH 43/44] fix: check the names of labels within property values

---
 ginko/src/dts/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 3013b8c..32685ef 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -457,14 +457,12 @@ where
     }
 
     fn skip_optional_label(&mut self) {
-        if matches!(
-            self.lexer.peek(),
-            Some(Token {
-                kind: TokenKind::Label(_),
-                ..
-            })
-        ) {
-            self.skip_tok();
+        let Some(TokenKind::Label(label)) = self.lexer.peek_kind() else {
+            return;
+        };
+        let label = label.clone();
+        if let Some(tok) = self.lexer.next() {
+            self.check_is_label(tok.span(), tok.start(), &label);
         }
     }
 
-- 
2.43.0


From 7f2639d8129123ef19756184c226c56134cd29e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:26 +0000
Subject: [PATCH 44/44] fix: read the width of /bits/ like any other number

---
 ginko/src/dts/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 32685ef..5a26ec3 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -392,10 +392,11 @@ where
             })
         ) {
             self.skip_tok();
-            let width = self.lexer.expect_next()?;
-            if let TokenKind::UnparsedNumber(width) = &width.kind {
-                bits = width.parse().unwrap_or(bits);
+            if matches!(self.lexer.peek_kind(), Some(TokenKind::UnparsedNumber(_))) {
+                let width = self.memreserve_number_u64()?;
+                bits = u8::try_from(*width.item()).unwrap_or(bits);
             } else {
+                let width = self.lexer.expect_next()?;
                 self.diagnostics.push(Diagnostic::expected(
                     width.span(),
                     width.source(),
-- 
2.43.0

