From cc6ce6708e6b11d2741b67753f5283e3dc8d5e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:01 +0000
Subject: [PATCH 01/37] hook: re-export private items under cfg(ginko_verif)
 for external verification

---
 ginko/src/dts/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/ginko/src/dts/mod.rs b/ginko/src/dts/mod.rs
index 0ea2ce3..2ee5ce8 100644
--- a/ginko/src/dts/mod.rs
+++ b/ginko/src/dts/mod.rs
@@ -1,3 +1,4 @@
+#![allow(unexpected_cfgs)]
 /// Module for analyzing Device-Tree Source files
 mod analysis;
 mod ast;
@@ -21,3 +22,14 @@ pub use parser::Parser;
 pub use parser::ParserContext;
 pub use project::Project;
 pub use visitor::ItemAtCursor;
+
+/// Re-exports of private items for an external verification harness.
+/// Only present when compiled with `RUSTFLAGS="--cfg ginko_verif"`.
+#[cfg(ginko_verif)]
+pub mod verif {
+    pub use crate::dts::ast::*;
+    pub use crate::dts::data::HasSource;
+    pub use crate::dts::import_guard::{CyclicDependencyError, ImportGuard};
+    pub use crate::dts::tokens::Reference as RefToken;
+    pub use crate::dts::tokens::{CompilerDirective, Lexer, Token, TokenKind};
+}
-- 
2.43.0


From e3b6eec565edfdab1a05d2bc599b7f885e30e9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:17 +0000
Subject: [PATCH 02/37] fix: report success and exit 0 only when no issues were
 found

The exit status of the command-line tool was inverted.
---
 ginko/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/main.rs b/ginko/src/main.rs
index 9fe1434..e289819 100644
--- a/ginko/src/main.rs
+++ b/ginko/src/main.rs
@@ -36,7 +36,7 @@ fn main() -> Result<(), Box<dyn Error>> {
         println!("{}", printer);
     }
 
-    if has_errors {
+    if !has_errors {
         println!("OK; No issues found");
         exit(0);
     } else {
-- 
2.43.0


From be47fd8f305e58bc9e9f20f02f46082de5481206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 03/37] fix: do not panic when an included file is not part of
 the project

An include that resolves to something that cannot be read (such as a
directory), or that was removed from the project, made
compute_key_order unwrap a None.
---
 ginko/src/dts/project.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3c8f1db..2ebd64d 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -147,7 +147,10 @@ impl Project {
         // This is very inefficient. Probably there is a better way.
         let mut current_order = self.files.keys().cloned().collect_vec();
         for (key, value) in &map {
-            let key_idx = current_order.iter().position(|r| r == key).unwrap();
+            // Includes that could not be read are not part of the project.
+            let Some(key_idx) = current_order.iter().position(|r| r == key) else {
+                continue;
+            };
             for v in value {
                 let value_idx = current_order.iter().position(|r| r == v).unwrap();
                 if key_idx > value_idx {
-- 
2.43.0


From 03d66821f77ff3e00ee812c046dd5f3fd6a80bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:50 +0000
Subject: [PATCH 04/37] fix: analyze every file after all files that it
 includes

Swapping pairs in a single pass did not yield a topological order, so
that, depending on the iteration order of the hash map, files with nested
includes were analyzed before the files they include and reported
references as unresolved.
---
 ginko/src/dts/project.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 2ebd64d..3cbf6a1 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -145,18 +145,22 @@ impl Project {
             }
         }
         // This is very inefficient. Probably there is a better way.
-        let mut current_order = self.files.keys().cloned().collect_vec();
-        for (key, value) in &map {
-            // Includes that could not be read are not part of the project.
-            let Some(key_idx) = current_order.iter().position(|r| r == key) else {
-                continue;
-            };
-            for v in value {
-                let value_idx = current_order.iter().position(|r| r == v).unwrap();
-                if key_idx > value_idx {
-                    current_order.swap(key_idx, value_idx)
-                }
-            }
+        // Sorted, so that the order does not depend on the hash map.
+        let mut remaining = self.files.keys().cloned().sorted().collect_vec();
+        let mut current_order = vec![];
+        while !remaining.is_empty() {
+            // The next file must not include any file that was not yet visited.
+            // When there are cyclic includes, there may be no such file.
+            let next = remaining
+                .iter()
+                .position(|file| {
+                    !remaining
+                        .iter()
+                        .filter_map(|include| map.get(include))
+                        .any(|included_by| included_by.contains(file))
+                })
+                .unwrap_or(0);
+            current_order.push(remaining.remove(next));
         }
         current_order
     }
-- 
2.43.0


From 37bf807de0c5bbf2f69e8380b97f1d42e21530ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:07 +0000
Subject: [PATCH 05/37] fix: only find the reference of a directive when the
 cursor is on it

A top-level /delete-node/ or /omit-if-no-ref/ directive was returned for
every cursor position that no earlier element matched.
---
 ginko/src/dts/visitor.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/visitor.rs b/ginko/src/dts/visitor.rs
index 02d0402..3a87316 100644
--- a/ginko/src/dts/visitor.rs
+++ b/ginko/src/dts/visitor.rs
@@ -45,11 +45,12 @@ impl AnyDirective {
                     None
                 }
             }
-            AnyDirective::DeletedNode(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
-            }
-            AnyDirective::OmitIfNoRef(_, node_ref) => {
-                Some(ItemAtCursor::Reference(node_ref.item()))
+            AnyDirective::DeletedNode(_, node_ref) | AnyDirective::OmitIfNoRef(_, node_ref) => {
+                if node_ref.span().contains(cursor) {
+                    Some(ItemAtCursor::Reference(node_ref.item()))
+                } else {
+                    None
+                }
             }
             _ => None,
         }
-- 
2.43.0


From c9e6a39d9b20b47dcc1679e788b5521d25ed8895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:09 +0000
Subject: [PATCH 06/37] fix: name the expected and not the found token in the
 diagnostic

---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 53e95b9..87ecd7d 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -444,7 +444,7 @@ where
                     Err(Diagnostic::expected(
                         prev_pos.as_span(),
                         self.source(),
-                        &[token.kind],
+                        &[kind],
                     ))
                 }
             }
-- 
2.43.0


From fbfc2c7deed6ff2f1b1aa2d5a2404133128e3918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:10 +0000
Subject: [PATCH 07/37] fix: lex references to labels that start with an
 underscore

Such labels can be defined, but any reference to them was a syntax error.
---
 ginko/src/dts/tokens/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 87ecd7d..19f70e1 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -95,7 +95,7 @@ where
                     source: self.source(),
                 })
             }
-            b'a'..=b'z' | b'A'..=b'Z' => {
+            b'a'..=b'z' | b'A'..=b'Z' | b'_' => {
                 let label = self
                     .read_while(|ch| matches!(ch, b'0'..=b'9' | b'a'..=b'z' | b'A'..=b'Z' | b'_'));
                 let str = String::from_utf8(label).unwrap();
-- 
2.43.0


From 89724e140515752794402011562759c1e07d1cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:11 +0000
Subject: [PATCH 08/37] fix: print diagnostics that span multiple lines

The printer panicked in debug builds and, in release builds, subtracted
the start from the (possibly smaller) end character.
---
 ginko/src/dts/diagnostics.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 544d384..087c343 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -172,7 +172,6 @@ impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
         let end = diagnostic.span.end();
-        debug_assert!(start.line() == end.line());
         let empty_string = "".to_string();
         let line = self
             .code
@@ -198,11 +197,13 @@ impl<'a> DiagnosticPrinter<'a> {
         )?;
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
-        let len = if start.character() == end.character() {
-            1
+        // Only the first line is shown for spans that cover multiple lines
+        let end_character = if start.line() == end.line() {
+            end.character()
         } else {
-            end.character() - start.character()
+            line.chars().count() as u32
         };
+        let len = end_character.saturating_sub(start.character()).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 6cb8ea1821fc26eb3f381fb9bc5b397c63ffbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:26 +0000
Subject: [PATCH 09/37] fix: report problems in unit addresses and paths at
 their position

The position of an illegal character was computed relative to the start
of the whole token rather than to the start of the checked name.
---
 ginko/src/dts/parser.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b039bdb..39f59d7 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -140,8 +140,9 @@ where
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
+            let address_offset = name.name.chars().count() as i32 + 1;
             self.check_ident(
-                span,
+                Span::new(span.start().offset_by_char(address_offset), span.end()),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -178,10 +179,16 @@ where
                         "Path cannot be empty",
                     ));
                 }
-                let path = Path::from(path.as_str());
-                for el in path.iter() {
-                    self.check_is_node_name(token.span(), el);
+                // The path starts after the opening '&{'
+                let mut start = token.span().start().offset_by_char(2);
+                for el in path.split('/') {
+                    let end = start.offset_by_char(el.chars().count() as i32);
+                    if !el.is_empty() {
+                        self.check_is_node_name(Span::new(start, end), &NodeName::from(el));
+                    }
+                    start = end.offset_by_char(1);
                 }
+                let path = Path::from(path.as_str());
                 WithToken::new(crate::dts::ast::Reference::Path(path), token)
             }
         }
-- 
2.43.0


From 659177dcd055c9b6f4adc96e338929af6eb8f9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:28 +0000
Subject: [PATCH 10/37] fix: decode strings as UTF-8

Every byte was converted to its own character, so that strings with
non-ASCII characters (such as include file names) were garbled.
---
 ginko/src/dts/tokens/lexer.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 19f70e1..097d319 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -216,13 +216,13 @@ where
     //  ^~~ cursor is here
     fn string(&mut self, pos: Position) -> Option<Token> {
         let mut is_escaped: bool = false;
-        let mut str = String::new();
+        let mut buf: Vec<u8> = vec![];
         loop {
             let ch = self.reader.consume()?;
             match ch {
                 b'\\' => {
                     if is_escaped {
-                        str.push(b'\\' as char);
+                        buf.push(b'\\');
                         is_escaped = false;
                     } else {
                         is_escaped = true;
@@ -230,9 +230,10 @@ where
                 }
                 b'"' => {
                     if is_escaped {
-                        str.push(b'"' as char);
+                        buf.push(b'"');
                         is_escaped = false;
                     } else {
+                        let str = String::from_utf8(buf).unwrap();
                         return Some(Token {
                             span: pos.to(self.reader.pos()),
                             kind: TokenKind::String(str),
@@ -244,7 +245,7 @@ where
                     if is_escaped {
                         is_escaped = false
                     }
-                    str.push(ch as char)
+                    buf.push(ch)
                 }
             }
         }
-- 
2.43.0


From 0b9143df1303d5e6380ef43fc3299371518e04c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:45 +0000
Subject: [PATCH 11/37] fix: do not silently accept unterminated strings,
 comments and references

The lexer signalled the end of the file for them, so that, for example,
everything after an unterminated comment was ignored without a diagnostic.
---
 ginko/src/dts/tokens/lexer.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 097d319..2226746 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -79,16 +79,29 @@ where
         self.reader.pos()
     }
 
+    // A string, comment or reference that is not terminated before the end of the file
+    fn unterminated(&self, start: Position, ch: u8) -> Token {
+        Token {
+            span: start.to(self.reader.pos()),
+            kind: TokenKind::Unknown(ch),
+            source: self.source(),
+        }
+    }
+
     // precondition: cursor is past '&' token
     // x = <&ref>
     //       ^~~ cursor is here
     fn path_or_reference(&mut self, start: Position) -> Option<Token> {
-        let ch = self.reader.peek()?;
+        let Some(ch) = self.reader.peek() else {
+            return Some(self.unterminated(start, b'&'));
+        };
         match ch {
             b'{' => {
                 self.reader.skip();
                 let path = self.read_while(|ch| ch != b'}');
-                self.reader.consume()?;
+                if self.reader.consume().is_none() {
+                    return Some(self.unterminated(start, b'&'));
+                }
                 Some(Token {
                     span: start.to(self.reader.pos()),
                     kind: TokenKind::Ref(Reference::Path(String::from_utf8(path).unwrap())),
@@ -165,7 +178,9 @@ where
     fn multi_line_comment(&mut self, pos: Position) -> Option<Token> {
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'/'));
+            };
             match ch {
                 b'*' => {
                     if self.reader.peek() == Some(b'/') {
@@ -218,7 +233,9 @@ where
         let mut is_escaped: bool = false;
         let mut buf: Vec<u8> = vec![];
         loop {
-            let ch = self.reader.consume()?;
+            let Some(ch) = self.reader.consume() else {
+                return Some(self.unterminated(pos, b'"'));
+            };
             match ch {
                 b'\\' => {
                     if is_escaped {
-- 
2.43.0


From 08b6565a7f1af5576c5632f9518a3e6cf8fcabc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:02 +0000
Subject: [PATCH 12/37] fix: reject plus signs in byte strings

Elements such as 'ab+c' were parsed as the bytes 0xab and 0x0c.
---
 ginko/src/dts/parser.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 39f59d7..b5137df 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -292,13 +292,17 @@ where
                 }
                 let mut bytes: Vec<u8> = Vec::with_capacity(raw_str.len() / 2);
                 for (first, second) in raw_str.bytes().map(|ch| ch.to_ascii_lowercase()).tuples() {
-                    match u8::from_str_radix(std::str::from_utf8(&[first, second]).unwrap(), 16) {
-                        Ok(byte) => bytes.push(byte),
-                        Err(err) => {
-                            self.diagnostics.push(Diagnostic::parse_int_error(
-                                tok.span(),
-                                tok.source(),
-                                err,
+                    // `from_str_radix` would accept a leading sign
+                    match (
+                        char::from(first).to_digit(16),
+                        char::from(second).to_digit(16),
+                    ) {
+                        (Some(high), Some(low)) => bytes.push((high * 16 + low) as u8),
+                        _ => {
+                            self.diagnostics.push(Diagnostic::from_token(
+                                tok.clone(),
+                                ErrorCode::IntError,
+                                "invalid digit found in string",
                             ));
                             return Ok(WithToken::new(vec![], tok));
                         }
-- 
2.43.0


From 4feb8e4f10cf81ad021708347273ff56e6064b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:04 +0000
Subject: [PATCH 13/37] fix: report labels and directives that are not followed
 by anything

A label or an /omit-if-no-ref/ directive in front of the closing brace of a
node was accepted and dropped without a diagnostic.
---
 ginko/src/dts/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index b5137df..4d65baf 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -519,7 +519,7 @@ where
             };
             let ident = match &tok.kind {
                 TokenKind::Ident(string) => WithToken::new(string.clone(), tok),
-                TokenKind::CloseBrace => {
+                TokenKind::CloseBrace if label.is_none() && omit_if_no_ref.is_none() => {
                     end = self.expect_semicolon()?.unwrap_or(tok.clone());
                     break;
                 }
-- 
2.43.0


From d70b86a2d062bd43bdab43272a477b86551c0f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:05 +0000
Subject: [PATCH 14/37] fix: report a dts-v1 header that follows a
 /delete-node/ directive

All other elements except for includes already had this effect.
---
 ginko/src/dts/analysis.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index bcfe7eb..927b81e 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -145,6 +145,7 @@ impl Analysis {
                     }
                     AnyDirective::OmitIfNoRef(..) => ctx.first_non_include = true,
                     AnyDirective::DeletedNode(_, reference) => {
+                        ctx.first_non_include = true;
                         self.resolve_reference(&mut ctx, reference);
                     }
                 },
-- 
2.43.0


From 300559d089c6fc73fc61d489823c3b58d160b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:25 +0000
Subject: [PATCH 15/37] fix: resolve labels of nodes that are opened again
 without the label

Extending a node by its label looked for the label at the last definition
of each path. When a node was opened again without its label, the label
could no longer be resolved; when a label was used twice, the choice
depended on the iteration order of the hash map.
---
 ginko/src/dts/analysis.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 927b81e..4bb8f5d 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -36,6 +36,7 @@ impl Analysis {
 #[derive(Clone)]
 pub struct AnalysisContext {
     labels: HashMap<String, Labeled>,
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
 }
 
@@ -68,6 +69,9 @@ pub struct FileContext<'a> {
     project: &'a Project,
     diagnostics: Vec<Diagnostic>,
     labels: HashMap<String, Labeled>,
+    // The paths of all labeled nodes. `flat_nodes` alone is not sufficient to get
+    // the path of a label, since a node can be opened again without its label.
+    label_paths: HashMap<String, Path>,
     flat_nodes: HashMap<Path, Arc<Node>>,
     unresolved_references: Vec<WithToken<Reference>>,
     file_type: FileType,
@@ -81,10 +85,8 @@ impl FileContext<'_> {
         self.diagnostics.push(diagnostic);
     }
 
-    pub fn resolve_reference(&self, label: &String) -> Option<(&Path, &Arc<Node>)> {
-        self.flat_nodes
-            .iter()
-            .find(|(_, value)| value.label.as_ref().map(|node| node.item()) == Some(label))
+    pub fn resolve_reference(&self, label: &String) -> Option<&Path> {
+        self.label_paths.get(label)
     }
 }
 
@@ -94,6 +96,7 @@ impl FileContext<'_> {
             context: AnalysisContext {
                 flat_nodes: self.flat_nodes,
                 labels: self.labels,
+                label_paths: self.label_paths,
             },
             diagnostics: self.diagnostics,
         }
@@ -110,6 +113,7 @@ impl Analysis {
         let mut ctx = FileContext {
             file_type,
             labels: HashMap::default(),
+            label_paths: HashMap::default(),
             diagnostics: Vec::default(),
             flat_nodes: HashMap::default(),
             unresolved_references: Vec::default(),
@@ -205,6 +209,7 @@ impl Analysis {
         if let Some(context) = proj_file.context.as_ref() {
             ctx.flat_nodes.extend(context.flat_nodes.clone());
             ctx.labels.extend(context.labels.clone());
+            ctx.label_paths.extend(context.label_paths.clone());
         }
     }
 
@@ -238,7 +243,7 @@ impl Analysis {
                     self.unresolved_reference_error(ctx, reference.span(), reference.source());
                     Path::empty()
                 }
-                Some((path, _)) => path.clone(),
+                Some(path) => path.clone(),
             },
             Reference::Path(path) => {
                 if !ctx.flat_nodes.contains_key(path) {
@@ -283,6 +288,7 @@ impl Analysis {
         if let Some(label) = &node.label {
             ctx.labels
                 .insert(label.item().clone(), Labeled::Node(node.clone()));
+            ctx.label_paths.insert(label.item().clone(), path.clone());
         }
         ctx.flat_nodes.insert(path.clone(), node.clone());
         self.analyze_node_payload(ctx, &node.payload, path)
-- 
2.43.0


From 396caf0c674cac0e889e97c24f2ed60180fc465b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:49 +0000
Subject: [PATCH 16/37] fix: do not panic for files that are not present on
 disk

---
 ginko/src/dts/project.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3cbf6a1..a3c83bf 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -103,10 +103,9 @@ impl Project {
     /// * text: The contents of the file.
     /// * file_type: Defines how the file should be analyzed.
     ///
-    /// # Panics
-    /// If `file_name` does not point to a valid file.
+    /// The file does not need to be present on disk.
     pub fn add_file_with_text(&mut self, file_name: PathBuf, text: String, file_type: FileType) {
-        let file_name = dunce::canonicalize(file_name).expect("File must be present");
+        let file_name = project_path(&file_name);
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
@@ -166,9 +165,7 @@ impl Project {
     }
 
     pub fn remove_file(&mut self, path: &Path) {
-        if let Ok(path) = dunce::canonicalize(path) {
-            self.files.remove(&path);
-        }
+        self.files.remove(&project_path(path));
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
@@ -297,13 +294,17 @@ impl Project {
     }
 
     pub fn get_file(&self, path: &Path) -> Option<&ProjectFile> {
-        match dunce::canonicalize(path) {
-            Ok(path) => self.files.get(&path),
-            Err(_) => None,
-        }
+        self.files.get(&project_path(path))
     }
 }
 
+/// The path under which a file is known to the project.
+/// Files that are not present on disk (i.e., when they were not saved yet, or when they
+/// were deleted) are known under their given path.
+fn project_path(path: &Path) -> PathBuf {
+    dunce::canonicalize(path).unwrap_or_else(|_| path.to_owned())
+}
+
 #[cfg(test)]
 // For some reason, this fails under windows with error "The system cannot find the file specified. (os error 2)"
 #[cfg(not(windows))]
-- 
2.43.0


From a33844b97710f835dc8e0a4ff21a45f7b0d6fa7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:03 +0000
Subject: [PATCH 17/37] fix: use the last content change and accept changes
 without content

---
 ginko_ls/src/server.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 3847d81..ef01d05 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -155,12 +155,14 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        // Every change contains the full text, so that only the last one is relevant.
+        let Some(change) = params.content_changes.into_iter().next_back() else {
+            return;
+        };
         let file_type = FileType::from(file_path.as_path());
-        self.project.write().add_file_with_text(
-            file_path.clone(),
-            params.content_changes.into_iter().next().unwrap().text,
-            file_type,
-        );
+        self.project
+            .write()
+            .add_file_with_text(file_path.clone(), change.text, file_type);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 2a5932e00cac34f583bd7b892c06bf0a7460a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:04 +0000
Subject: [PATCH 18/37] fix: go to the start of an included file

---
 ginko_ls/src/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index ef01d05..6d40293 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -206,9 +206,10 @@ impl LanguageServer for Backend {
                     .ok()
                     .and_then(|path| Url::from_file_path(path).ok())
                 {
+                    // The start of the included file
                     Some(url) => Ok(Some(GotoDefinitionResponse::Scalar(Location::new(
                         url,
-                        ginko_span_to_range(include.span()),
+                        Range::default(),
                     )))),
                     _ => Ok(None),
                 }
-- 
2.43.0


From cd30279e6d4d60d5efd2502460ea70d99da27d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:34 +0000
Subject: [PATCH 19/37] fix: load includes that were removed from the project
 or did not exist before

---
 ginko/src/dts/analysis.rs |  5 +++++
 ginko/src/dts/project.rs  | 40 +++++++++++++++++++++++----------------
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 4bb8f5d..2d99c21 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -7,6 +7,7 @@ use crate::dts::error_codes::ErrorCode;
 use crate::dts::import_guard::ImportGuard;
 use crate::dts::{Diagnostic, FileType, Position, Project};
 use std::collections::HashMap;
+use std::fs;
 use std::path::{Path as StdPath, PathBuf};
 use std::sync::Arc;
 
@@ -196,6 +197,10 @@ impl Analysis {
             return;
         }
         let Some(proj_file) = ctx.project.get_file(&path) else {
+            // All included files that can be read are part of the project
+            if let Err(err) = fs::read_to_string(&path) {
+                ctx.add_diagnostic(Diagnostic::io_error(include.span(), include.source(), err));
+            }
             return;
         };
         if proj_file.has_errors(&ctx.project.severities) {
diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index a3c83bf..8ea9925 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -109,6 +109,7 @@ impl Project {
         // First step: Parse file and all dependencies.
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
+        self.parse_missing_includes();
 
         let keys = self.compute_key_order();
 
@@ -257,7 +258,7 @@ impl Project {
                 file.elements
                     .iter()
                     .filter_map(|primary| primary.as_include())
-                    .for_each(|include| self.parse_included_file(&mut parser.diagnostics, include));
+                    .for_each(|include| self.parse_included_file(include));
                 self.files.insert(
                     file_name,
                     ProjectFile::parsed(parser.diagnostics, file, file_type, text),
@@ -270,26 +271,33 @@ impl Project {
         };
     }
 
-    fn parse_included_file(&mut self, diagnostics: &mut Vec<Diagnostic>, include: &Include) {
-        let canonicalized_path = match include.path() {
-            Ok(path) => path,
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err));
-                return;
-            }
+    // Includes that cannot be resolved or read are reported by the analysis
+    fn parse_included_file(&mut self, include: &Include) {
+        let Ok(canonicalized_path) = include.path() else {
+            return;
         };
         // Avoids duplicate insertion and cyclic dependencies
         if self.files.contains_key(&canonicalized_path) {
             return;
         }
-        match fs::read_to_string(&canonicalized_path) {
-            Ok(text) => {
-                let typ = FileType::from(canonicalized_path.as_path());
-                self.parse_file(canonicalized_path, text, typ);
-            }
-            Err(err) => {
-                diagnostics.push(Diagnostic::io_error(include.span(), include.source(), err))
-            }
+        if let Ok(text) = fs::read_to_string(&canonicalized_path) {
+            let typ = FileType::from(canonicalized_path.as_path());
+            self.parse_file(canonicalized_path, text, typ);
+        }
+    }
+
+    /// Parses the included files that are not part of the project, because they
+    /// were removed or because they did not exist when the including file was parsed.
+    fn parse_missing_includes(&mut self) {
+        let includes = self
+            .files
+            .values()
+            .filter_map(|file| file.file.as_ref())
+            .flat_map(|file| file.elements.iter().filter_map(|el| el.as_include()))
+            .cloned()
+            .collect_vec();
+        for include in &includes {
+            self.parse_included_file(include)
         }
     }
 
-- 
2.43.0


From 5b6f530ea3ef9c9780a809aa07144dc20385be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:56 +0000
Subject: [PATCH 20/37] fix: do not use outdated analysis results for cyclic
 includes

---
 ginko/src/dts/project.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 8ea9925..5dbdf1b 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -113,6 +113,13 @@ impl Project {
 
         let keys = self.compute_key_order();
 
+        // The analysis must not depend on outdated results. This can otherwise happen
+        // when there are cyclic includes.
+        for file in self.files.values_mut() {
+            file.context = None;
+            file.analysis_diagnostics.clear();
+        }
+
         let mut analysis = Analysis::new();
         for key in &keys {
             let proj_file = self.files.get(key).unwrap();
-- 
2.43.0


From f9dce618cea50aef17ceb60f910d7f1b95c628dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:34 +0000
Subject: [PATCH 21/37] fix: count columns in UTF-16 code units

---
 ginko/src/dts/data.rs         |  8 ++++++++
 ginko/src/dts/parser.rs       |  9 +++++----
 ginko/src/dts/reader.rs       | 10 +++++++++-
 ginko/src/dts/tokens/lexer.rs | 11 ++++++++++-
 4 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/ginko/src/dts/data.rs b/ginko/src/dts/data.rs
index 89ef8e6..bd050e8 100644
--- a/ginko/src/dts/data.rs
+++ b/ginko/src/dts/data.rs
@@ -134,6 +134,14 @@ impl Position {
         )
     }
 
+    /// Returns the position after the given text, when the text starts at this position.
+    pub(crate) fn offset_by_text(&self, text: &str) -> Position {
+        text.chars().fold(*self, |pos, ch| match ch {
+            '\n' => Position::new(pos.line + 1, 0),
+            ch => pos.offset_by_char(ch.len_utf16() as i32),
+        })
+    }
+
     /// Returns the zero-length span that is formed by this position repeated
     ///```
     /// use ginko::dts::{Position, Span};
diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 4d65baf..9fade22 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -82,8 +82,9 @@ where
         F2: FnMut(char) -> bool,
     {
         if let Some((pos, ch)) = str.chars().enumerate().find(|(_, ch)| !predicate(*ch)) {
+            let start = span.start().offset_by_char(pos as i32);
             self.diagnostics.push(Diagnostic::new(
-                span.start().offset_by_char(pos as i32).as_char_span(),
+                Span::new(start, start.offset_by_char(ch.len_utf16() as i32)),
                 self.lexer.source(),
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
@@ -140,9 +141,9 @@ where
             NameContext::NodeName,
         );
         if let Some(unit_address) = &name.unit_address {
-            let address_offset = name.name.chars().count() as i32 + 1;
+            let address_start = span.start().offset_by_text(&name.name).offset_by_char(1);
             self.check_ident(
-                Span::new(span.start().offset_by_char(address_offset), span.end()),
+                Span::new(address_start, span.end()),
                 unit_address.as_str(),
                 |ch| matches!(ch, 'a'..='z' | 'A'..='Z' | '0'..='9' | ',' | '.' | '_' | '+' | '-'),
                 |_| true,
@@ -182,7 +183,7 @@ where
                 // The path starts after the opening '&{'
                 let mut start = token.span().start().offset_by_char(2);
                 for el in path.split('/') {
-                    let end = start.offset_by_char(el.chars().count() as i32);
+                    let end = start.offset_by_text(el);
                     if !el.is_empty() {
                         self.check_is_node_name(Span::new(start, end), &NodeName::from(el));
                     }
diff --git a/ginko/src/dts/reader.rs b/ginko/src/dts/reader.rs
index 8a57a6d..6266d34 100644
--- a/ginko/src/dts/reader.rs
+++ b/ginko/src/dts/reader.rs
@@ -52,7 +52,15 @@ impl Reader for ByteReader {
             b'\n' => {
                 self.pos = Position::new(self.pos.line() + 1, 0);
             }
-            _ => self.pos = Position::new(self.pos.line(), self.pos.character() + 1),
+            _ => {
+                // Columns are counted in UTF-16 code units
+                let width = match ch {
+                    0x80..=0xBF => 0,
+                    0xF0..=0xFF => 2,
+                    _ => 1,
+                };
+                self.pos = Position::new(self.pos.line(), self.pos.character() + width)
+            }
         }
         Some(ch)
     }
diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 2226746..3fda27c 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -376,7 +376,16 @@ where
             b'<' => simple_token(ChevronLeft),
             b'>' => simple_token(ChevronRight),
             b',' => simple_token(Comma),
-            ch => simple_token(Unknown(ch)),
+            ch => {
+                self.reader.skip();
+                // Skip the remaining bytes of a multi-byte character
+                while self.reader.skip_if(|ch| matches!(ch, 0x80..=0xBF)) {}
+                Some(Token {
+                    kind: Unknown(ch),
+                    span: start_pos.to(self.reader.pos()),
+                    source: self.source(),
+                })
+            }
         }
     }
 }
-- 
2.43.0


From 8e71e01272a2e6107047fa2f23e988fde3246e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:52 +0000
Subject: [PATCH 22/37] fix: respect the --include option of the language
 server

---
 ginko_ls/src/main.rs   |  5 +++--
 ginko_ls/src/server.rs | 15 ++++++++++++---
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/ginko_ls/src/main.rs b/ginko_ls/src/main.rs
index c63f730..a20f1c2 100644
--- a/ginko_ls/src/main.rs
+++ b/ginko_ls/src/main.rs
@@ -12,7 +12,7 @@ struct Args {
 
 #[tokio::main]
 pub async fn main() {
-    Args::parse();
+    let args = Args::parse();
     // Log to stderr instead of stdout since communication with the language server client
     // happens through stdout
     tracing_subscriber::fmt()
@@ -21,6 +21,7 @@ pub async fn main() {
 
     let (stdin, stdout) = (tokio::io::stdin(), tokio::io::stdout());
 
-    let (service, socket) = LspService::new(server::Backend::new);
+    let include_paths = args.include.unwrap_or_default();
+    let (service, socket) = LspService::new(|client| server::Backend::new(client, include_paths));
     Server::new(stdin, stdout, socket).serve(service).await;
 }
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 6d40293..bc454ee 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -16,16 +16,25 @@ pub(crate) struct Backend {
     client: Client,
     project: RwLock<Project>,
     severities: SeverityMap,
+    // The include paths that were given on the command line
+    include_paths: Vec<String>,
 }
 
 impl Backend {
-    pub fn new(client: Client) -> Backend {
+    pub fn new(client: Client, include_paths: Vec<String>) -> Backend {
         Backend {
             client,
             project: RwLock::new(Project::default()),
             severities: SeverityMap::default(),
+            include_paths,
         }
     }
+
+    fn set_config(&self, config: ProjectConfig) {
+        let mut include_paths = self.include_paths.clone();
+        include_paths.extend(config.includes);
+        self.project.write().set_include_paths(include_paths);
+    }
 }
 
 #[derive(Deserialize, Serialize, Default, Debug)]
@@ -110,7 +119,7 @@ impl Backend {
 impl LanguageServer for Backend {
     async fn initialize(&self, params: InitializeParams) -> Result<InitializeResult> {
         let config = ProjectConfig::from_value(params.initialization_options.unwrap_or_default());
-        self.project.write().set_include_paths(config.includes);
+        self.set_config(config);
 
         Ok(InitializeResult {
             server_info: None,
@@ -128,7 +137,7 @@ impl LanguageServer for Backend {
 
     async fn did_change_configuration(&self, params: DidChangeConfigurationParams) {
         let config = ProjectConfig::from_value(params.settings);
-        self.project.write().set_include_paths(config.includes);
+        self.set_config(config);
         self.publish_diagnostics().await
     }
 
-- 
2.43.0


From 5a20ba8740491cff6769cc08c661b504377a0d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:08 +0000
Subject: [PATCH 23/37] hook: expose the numbers of memory reservations under
 cfg(ginko_verif)

---
 ginko/src/dts/ast.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ginko/src/dts/ast.rs b/ginko/src/dts/ast.rs
index a46cfcb..736a9fa 100644
--- a/ginko/src/dts/ast.rs
+++ b/ginko/src/dts/ast.rs
@@ -414,6 +414,14 @@ impl Memreserve {
     }
 }
 
+#[cfg(ginko_verif)]
+impl Memreserve {
+    /// The address and the length, for an external verification harness.
+    pub fn numbers(&self) -> (&WithToken<u64>, &WithToken<u64>) {
+        (&self.address, &self.length)
+    }
+}
+
 impl Display for Memreserve {
     fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
         write!(
-- 
2.43.0


From 0af931cb2dd0f76552fda6a3ea070cee7ad403ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:44 +0000
Subject: [PATCH 24/37] fix: report the same cycle of includes every time

Which of several cycles through an include was reported depended on the
iteration order of a hash set.
---
 ginko/src/dts/import_guard.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/import_guard.rs b/ginko/src/dts/import_guard.rs
index d830ff3..81eb9b4 100644
--- a/ginko/src/dts/import_guard.rs
+++ b/ginko/src/dts/import_guard.rs
@@ -25,7 +25,8 @@ pub struct ImportGuard<V>
 where
     V: Hash + Eq + Clone,
 {
-    nodes: HashMap<V, HashSet<V>>,
+    // In the order in which they were added so that the reported cycle is always the same
+    nodes: HashMap<V, Vec<V>>,
     back_track: HashMap<V, HashSet<V>>,
 }
 
@@ -41,11 +42,11 @@ where
     /// * `element` The node that contains dependencies
     /// * `dependencies` The dependencies of the element.
     pub fn add(&mut self, element: V, dependencies: &[V]) -> Result<(), CyclicDependencyError<V>> {
-        self.nodes
-            .entry(element.clone())
-            .or_default()
-            .extend(dependencies.iter().cloned());
+        let known = self.nodes.entry(element.clone()).or_default();
         for dependency in dependencies {
+            if !known.contains(dependency) {
+                known.push(dependency.clone());
+            }
             self.back_track
                 .entry(dependency.clone())
                 .or_default()
-- 
2.43.0


From 4e9c2f0819772a4644aed8c276d96f1185a952ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:36 +0000
Subject: [PATCH 25/37] fix: only documents with a file URL are files

Url::to_file_path does not look at the scheme, so that opening e.g.
git:/a.dts?rev replaced the contents of file:///a.dts.
---
 ginko_ls/src/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index bc454ee..380b89e 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -81,8 +81,9 @@ impl Backend {
 
     async fn url_to_file_path(&self, url: Url) -> Option<PathBuf> {
         match url.to_file_path() {
-            Ok(path) => Some(path),
-            Err(_) => {
+            // A path of any other scheme (e.g., an old revision) does not denote that file.
+            Ok(path) if url.scheme() == "file" => Some(path),
+            _ => {
                 self.client
                     .show_message(
                         MessageType::ERROR,
-- 
2.43.0


From 4b5cadad255e00a929d72eb282f59a9ef6a49932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:31 +0000
Subject: [PATCH 26/37] fix: mark the right characters behind characters
 outside the BMP

Columns are counted in UTF-16 code units, the printer took them for
characters.
---
 ginko/src/dts/diagnostics.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/diagnostics.rs b/ginko/src/dts/diagnostics.rs
index 087c343..734a5a8 100644
--- a/ginko/src/dts/diagnostics.rs
+++ b/ginko/src/dts/diagnostics.rs
@@ -168,6 +168,21 @@ pub struct DiagnosticPrinter<'a> {
     pub severity_map: SeverityMap,
 }
 
+/// The number of characters that are displayed before a column.
+/// Columns are counted in UTF-16 code units.
+fn chars_before_column(line: &str, column: u32) -> u32 {
+    let mut chars = 0;
+    let mut units = 0;
+    for ch in line.chars() {
+        if units >= column {
+            return chars;
+        }
+        chars += 1;
+        units += ch.len_utf16() as u32;
+    }
+    chars + column.saturating_sub(units)
+}
+
 impl<'a> DiagnosticPrinter<'a> {
     fn fmt_diagnostic(&self, f: &mut Formatter<'_>, diagnostic: &Diagnostic) -> std::fmt::Result {
         let start = diagnostic.span.start();
@@ -178,11 +193,12 @@ impl<'a> DiagnosticPrinter<'a> {
             .get(start.line() as usize)
             .unwrap_or(&empty_string)
             .clone();
+        let start_char = chars_before_column(&line, start.character());
         // take tabs into consideration
         let line_empty: String = line
             .chars()
             .map(|ch| if !ch.is_ascii_whitespace() { ' ' } else { ch })
-            .take(start.character() as usize)
+            .take(start_char as usize)
             .collect();
 
         let prefix = format!("{}", start.line() + 1);
@@ -198,12 +214,12 @@ impl<'a> DiagnosticPrinter<'a> {
         writeln!(f, "{} |", prefix_empty)?;
         writeln!(f, "{} | {}", prefix, line)?;
         // Only the first line is shown for spans that cover multiple lines
-        let end_character = if start.line() == end.line() {
-            end.character()
+        let end_char = if start.line() == end.line() {
+            chars_before_column(&line, end.character())
         } else {
             line.chars().count() as u32
         };
-        let len = end_character.saturating_sub(start.character()).max(1);
+        let len = end_char.saturating_sub(start_char).max(1);
         write!(
             f,
             "{} | {}{}",
-- 
2.43.0


From 15157ed34e8b320462f53780d9b4847ee2a8b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 27/37] fix: check the first character of names that are too
 long

---
 ginko/src/dts/parser.rs | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 9fade22..cb77ad1 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -89,7 +89,19 @@ where
                 ErrorCode::IllegalChar,
                 format!("Illegal char '{ch}' in {name_context}"),
             ));
-        } else if str.len() > 31 {
+            return;
+        }
+        if str.is_empty() {
+            self.diagnostics.push(Diagnostic::new(
+                span,
+                self.lexer.source(),
+                ErrorCode::ExpectedName,
+                format!("Expected {name_context}"),
+            ));
+            return;
+        }
+        // Long names are only a warning. They must follow the other rules, nonetheless.
+        if str.len() > 31 {
             self.diagnostics.push(Diagnostic::new(
                 span,
                 self.lexer.source(),
@@ -99,14 +111,8 @@ where
                     str.len()
                 ),
             ))
-        } else if str.is_empty() {
-            self.diagnostics.push(Diagnostic::new(
-                span,
-                self.lexer.source(),
-                ErrorCode::ExpectedName,
-                format!("Expected {name_context}"),
-            ))
-        } else if !str.starts_with(starting_chars) {
+        }
+        if !str.starts_with(starting_chars) {
             self.diagnostics.push(Diagnostic::new(
                 span,
                 self.lexer.source(),
-- 
2.43.0


From c08a51a9bd1fd7d0a65087e523555a5ff9d3a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 28/37] fix: check the labels inside of property values

---
 ginko/src/dts/parser.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index cb77ad1..fa3b17d 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -436,14 +436,14 @@ where
     }
 
     fn skip_optional_label(&mut self) {
-        if matches!(
-            self.lexer.peek(),
-            Some(Token {
-                kind: TokenKind::Label(_),
-                ..
-            })
-        ) {
+        if let Some(Token {
+            kind: TokenKind::Label(label),
+            span,
+            ..
+        }) = self.lexer.peek().cloned()
+        {
             self.skip_tok();
+            self.check_is_label(span, &label);
         }
     }
 
-- 
2.43.0


From 7190b3db7d6ed54d3a3f31ae778a2c8526865c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:54 +0000
Subject: [PATCH 29/37] fix: report malformed widths behind /bits/

---
 ginko/src/dts/parser.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index fa3b17d..10246ea 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -373,8 +373,12 @@ where
             })
         ) {
             self.skip_tok();
-            let width = self.lexer.expect_next()?;
-            if !matches!(width.kind, TokenKind::UnparsedNumber(_)) {
+            let width = self.lexer.peek_expect()?.clone();
+            if matches!(width.kind, TokenKind::UnparsedNumber(_)) {
+                // only check that this is a valid number
+                self.number_u32()?;
+            } else {
+                self.skip_tok();
                 self.diagnostics.push(Diagnostic::expected(
                     width.span(),
                     width.source(),
-- 
2.43.0


From a7d98363151734c9a70d55be7e13208e77437258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 30/37] fix: report a missing number in /memreserve/ where it
 is missing

---
 ginko/src/dts/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 10246ea..75a966e 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -278,8 +278,8 @@ where
                 }
             }
             _ => Err(Diagnostic::expected(
-                self.lexer.last_pos().offset_by_char(1).as_span(),
-                self.lexer.source(),
+                tok.span(),
+                tok.source(),
                 &[TokenKind::UnparsedNumber("".to_string())],
             )),
         }
-- 
2.43.0


From d413ffe101053695e2d912e2da55474839e89871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 31/37] fix: keep the diagnostics before an error that stops
 the parser

---
 ginko/src/dts/project.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 5dbdf1b..581b32b 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -40,9 +40,13 @@ impl ProjectFile {
         }
     }
 
-    pub fn unrecoverable(err: Diagnostic, source: String, file_type: FileType) -> ProjectFile {
+    pub fn unrecoverable(
+        diagnostics: Vec<Diagnostic>,
+        source: String,
+        file_type: FileType,
+    ) -> ProjectFile {
         ProjectFile {
-            parser_diagnostics: vec![err],
+            parser_diagnostics: diagnostics,
             analysis_diagnostics: vec![],
             file: None,
             source,
@@ -272,8 +276,13 @@ impl Project {
                 );
             }
             Err(err) => {
-                self.files
-                    .insert(file_name, ProjectFile::unrecoverable(err, text, file_type));
+                // The error that stopped the parser comes after all others
+                let mut diagnostics = parser.diagnostics;
+                diagnostics.push(err);
+                self.files.insert(
+                    file_name,
+                    ProjectFile::unrecoverable(diagnostics, text, file_type),
+                );
             }
         };
     }
-- 
2.43.0


From ac9c8335afbf2b5aaf99a36ac0dbe72ce28e3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 32/37] fix: report parentheses as unbalanced only if they are
 unbalanced

---
 ginko/src/dts/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ginko/src/dts/parser.rs b/ginko/src/dts/parser.rs
index 75a966e..9470010 100644
--- a/ginko/src/dts/parser.rs
+++ b/ginko/src/dts/parser.rs
@@ -230,8 +230,7 @@ where
                 }
             }
             TokenKind::OpenParen => {
-                self.skip_expression_starting_with_paren();
-                if self.lexer.peek().is_none() {
+                if !self.skip_expression_starting_with_paren() {
                     self.diagnostics.push(Diagnostic::from_token(
                         tok,
                         ErrorCode::UnbalancedParentheses,
@@ -331,7 +330,8 @@ where
         }
     }
 
-    fn skip_expression_starting_with_paren(&mut self) {
+    /// Skips the expression. Returns whether all parentheses are closed.
+    fn skip_expression_starting_with_paren(&mut self) -> bool {
         let mut depth = 1;
         loop {
             let peeked = self.lexer.peek();
@@ -354,10 +354,10 @@ where
                 depth -= 1;
                 self.skip_tok();
                 if depth == 0 {
-                    return;
+                    return true;
                 }
             } else if peeked.is_none() {
-                return;
+                return false;
             } else {
                 self.skip_tok();
             }
-- 
2.43.0


From 15bf9f96bd863be45754172ba1abb19c3f9eca07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 33/37] fix: add the children of referenced nodes in includes
 to the referenced node

---
 ginko/src/dts/analysis.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/ginko/src/dts/analysis.rs b/ginko/src/dts/analysis.rs
index 2d99c21..61e5c4d 100644
--- a/ginko/src/dts/analysis.rs
+++ b/ginko/src/dts/analysis.rs
@@ -260,12 +260,7 @@ impl Analysis {
     }
 
     pub fn analyze_referenced_node(&mut self, ctx: &mut FileContext<'_>, node: &ReferencedNode) {
-        let path = if ctx.file_type == FileType::DtSource {
-            self.resolve_reference(ctx, &node.reference)
-        } else {
-            // This is an include; simply assume the 'root' path
-            Path::empty()
-        };
+        let path = self.resolve_reference(ctx, &node.reference);
         self.analyze_node_payload(ctx, &node.payload, path);
     }
 
-- 
2.43.0


From ccf0ebbdcbb3646596f4d36ad11638fca1d76716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:55 +0000
Subject: [PATCH 34/37] fix: decode the escape sequences for control characters

---
 ginko/src/dts/tokens/lexer.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ginko/src/dts/tokens/lexer.rs b/ginko/src/dts/tokens/lexer.rs
index 3fda27c..4fb0042 100644
--- a/ginko/src/dts/tokens/lexer.rs
+++ b/ginko/src/dts/tokens/lexer.rs
@@ -260,9 +260,20 @@ where
                 }
                 _ => {
                     if is_escaped {
-                        is_escaped = false
+                        is_escaped = false;
+                        buf.push(match ch {
+                            b'a' => 0x07,
+                            b'b' => 0x08,
+                            b't' => b'\t',
+                            b'n' => b'\n',
+                            b'v' => 0x0b,
+                            b'f' => 0x0c,
+                            b'r' => b'\r',
+                            _ => ch,
+                        })
+                    } else {
+                        buf.push(ch)
                     }
-                    buf.push(ch)
                 }
             }
         }
-- 
2.43.0


From 9962a5b2911312012908f9abff28a95227bec4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:59 +0000
Subject: [PATCH 35/37] fix: search the includes of known files again when the
 include paths change

---
 ginko/src/dts/project.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 581b32b..3b8abe8 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -88,6 +88,17 @@ impl Project {
             .iter()
             .map(|path| dunce::canonicalize(path).unwrap_or_default())
             .collect::<Vec<PathBuf>>();
+        // The files that are already known must search their includes in the new paths
+        let known = self
+            .files
+            .iter()
+            .map(|(path, file)| (path.clone(), file.source.clone(), file.file_type))
+            .collect_vec();
+        for (path, text, file_type) in known {
+            self.parse_file(path, text, file_type);
+        }
+        self.parse_missing_includes();
+        self.analyze_files();
     }
 
     pub fn add_file(&mut self, file_name: String) -> Result<(), io::Error> {
@@ -114,7 +125,11 @@ impl Project {
         // Dependencies are cached.
         self.parse_file(file_name.clone(), text, file_type);
         self.parse_missing_includes();
+        self.analyze_files();
+    }
 
+    /// Analyzes all files
+    fn analyze_files(&mut self) {
         let keys = self.compute_key_order();
 
         // The analysis must not depend on outdated results. This can otherwise happen
-- 
2.43.0


From d2794cec658412d4f066134f652d34835ce121f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:01 +0000
Subject: [PATCH 36/37] fix: re-evaluate the project when a document is closed

---
 ginko/src/dts/project.rs |  4 ++++
 ginko_ls/src/server.rs   | 19 +++++++++++++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 3b8abe8..5f9dfe8 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -191,8 +191,12 @@ impl Project {
         current_order
     }
 
+    /// Removes a file and re-evaluates all other files.
+    /// When the file is still included by another file, its contents on disk are used from now on.
     pub fn remove_file(&mut self, path: &Path) {
         self.files.remove(&project_path(path));
+        self.parse_missing_includes();
+        self.analyze_files();
     }
 
     pub fn get_diagnostics(&self, path: &Path) -> Box<dyn Iterator<Item = &Diagnostic> + '_> {
diff --git a/ginko_ls/src/server.rs b/ginko_ls/src/server.rs
index 380b89e..1eccc99 100644
--- a/ginko_ls/src/server.rs
+++ b/ginko_ls/src/server.rs
@@ -95,13 +95,19 @@ impl Backend {
         }
     }
 
-    async fn publish_diagnostics(&self) {
-        let file_paths = self
-            .project
+    fn project_files(&self) -> Vec<PathBuf> {
+        self.project
             .read()
             .files()
             .map(|file| file.to_owned())
-            .collect_vec();
+            .collect_vec()
+    }
+
+    async fn publish_diagnostics(&self) {
+        self.publish_diagnostics_of(self.project_files()).await
+    }
+
+    async fn publish_diagnostics_of(&self, file_paths: Vec<PathBuf>) {
         for file in file_paths {
             let diagnostics = self
                 .project
@@ -182,7 +188,12 @@ impl LanguageServer for Backend {
         let Some(file_path) = self.url_to_file_path(params.text_document.uri).await else {
             return;
         };
+        let mut file_paths = self.project_files();
         self.project.write().remove_file(&file_path);
+        // There are no diagnostics for files that are not part of the project anymore
+        file_paths.extend(self.project_files());
+        self.publish_diagnostics_of(file_paths.into_iter().unique().collect_vec())
+            .await
     }
 
     async fn goto_definition(
-- 
2.43.0


From 154d18c797446b4e1475018790995f7f2c558d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:30 +0000
Subject: [PATCH 37/37] fix: an include directory that does not exist stood for
 the working directory

---
 ginko/src/dts/project.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ginko/src/dts/project.rs b/ginko/src/dts/project.rs
index 5f9dfe8..d26245a 100644
--- a/ginko/src/dts/project.rs
+++ b/ginko/src/dts/project.rs
@@ -84,9 +84,11 @@ pub struct Project {
 
 impl Project {
     pub fn set_include_paths(&mut self, include_paths: Vec<String>) {
+        // A directory that does not exist (yet) keeps its name. It must not stand for
+        // the working directory, which is searched after all include paths.
         self.include_paths = include_paths
             .iter()
-            .map(|path| dunce::canonicalize(path).unwrap_or_default())
+            .map(|path| dunce::canonicalize(path).unwrap_or_else(|_| path.into()))
             .collect::<Vec<PathBuf>>();
         // The files that are already known must search their includes in the new paths
         let known = self
-- 
2.43.0

