From 21d666327b92199993dd6d3acfa59bd8d3fffbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 01/67] fix: keep leading trivia in front of a float-like
 dotted key

---
 crates/tombi-parser/src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-parser/src/parser.rs b/crates/tombi-parser/src/parser.rs
index efc61d4..8c51650 100644
--- a/crates/tombi-parser/src/parser.rs
+++ b/crates/tombi-parser/src/parser.rs
@@ -225,6 +225,11 @@ impl<'t> Parser<'t> {
         let parts: Vec<&str> = text.split('.').collect();
         debug_assert!(parts.len() == 2);
 
+        // Keep the trivia in front of the float (e.g. at the beginning of the document).
+        let token_index = self.nth_index(0);
+        self.tokens
+            .extend(&self.input_tokens[self.pos..token_index]);
+
         let key1 = {
             let m = self.start();
 
@@ -305,7 +310,7 @@ impl<'t> Parser<'t> {
 
             m.complete(self, token.kind())
         }
-        self.pos += 1;
+        self.pos = token_index + 1;
     }
 
     fn do_bump(&mut self, kind: SyntaxKind, n_raw_tokens: u8) {
-- 
2.43.0


From f6b3ee90beebf9b764acefa4890dd97f5ce9f9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 02/67] fix: trim only the first newline of a multi-line
 string, LF or CRLF

---
 crates/tombi-toml-text/src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 4db65c4..1c2ed01 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -75,23 +75,22 @@ pub fn try_from_multi_line_basic_string(
     toml_version: TomlVersion,
 ) -> Result<String, ParseError> {
     parse_basic_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
+        trim_first_newline(&value[3..value.len() - 3]),
         toml_version,
         true,
     )
 }
 
 pub fn try_from_multi_line_literal_string(value: &str) -> Result<String, ParseError> {
-    parse_literal_string(
-        &value[3..value.len() - 3]
-            .chars()
-            .skip_while(|c| matches!(c, '\n'))
-            .collect::<String>(),
-        true,
-    )
+    parse_literal_string(trim_first_newline(&value[3..value.len() - 3]), true)
+}
+
+/// A newline immediately following the opening delimiter is not part of the value.
+fn trim_first_newline(value: &str) -> &str {
+    value
+        .strip_prefix("\r\n")
+        .or_else(|| value.strip_prefix('\n'))
+        .unwrap_or(value)
 }
 
 pub fn parse_basic_string(
-- 
2.43.0


From 667b9a52c86a276c7f8aa80b05079306b4f6f628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 03/67] fix: line-ending backslash skips TOML whitespace and
 newlines only

---
 crates/tombi-toml-text/src/lib.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 1c2ed01..8a48fdd 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -207,20 +207,25 @@ pub fn parse_basic_string(
                                 return Err(ParseError::InvalidUnicodeEscapeSequence);
                             }
                         }
-                        c if c.is_whitespace() => {
-                            // Skip newline characters
-                            let mut has_whitespace = c == '\n';
-
-                            chars.next();
+                        ' ' | '\t' | '\n' | '\r' => {
+                            // Line ending backslash: skip to the next non-whitespace character
+                            let mut has_newline = false;
                             while let Some(&c) = chars.peek() {
-                                if c.is_whitespace() {
-                                    has_whitespace = has_whitespace || c == '\n';
-                                    chars.next();
-                                } else {
-                                    break;
+                                match c {
+                                    ' ' | '\t' => {}
+                                    '\n' => has_newline = true,
+                                    '\r' => {
+                                        chars.next();
+                                        if chars.peek() != Some(&'\n') {
+                                            return Err(ParseError::InvalidLineBreak);
+                                        }
+                                        has_newline = true;
+                                    }
+                                    _ => break,
                                 }
+                                chars.next();
                             }
-                            if !has_whitespace {
+                            if !has_newline {
                                 return Err(ParseError::InvalidWhitespaceEscapeSequence);
                             }
                         }
-- 
2.43.0


From e106b2c36a4c4e3b602ed666378d25d60555b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:12 +0000
Subject: [PATCH 04/67] fix: unicode escapes accept hexadecimal digits only

---
 crates/tombi-toml-text/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 8a48fdd..546afde 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -145,7 +145,7 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'u'
                             unicode_buf.clear();
                             for _ in 0..4 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) = chars.next_if(char::is_ascii_hexdigit) {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -165,7 +165,7 @@ pub fn parse_basic_string(
                             chars.next(); // consume 'U'
                             unicode_buf.clear();
                             for _ in 0..8 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) = chars.next_if(char::is_ascii_hexdigit) {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
@@ -190,7 +190,7 @@ pub fn parse_basic_string(
 
                             unicode_buf.clear();
                             for _ in 0..2 {
-                                if let Some(hex_digit) = chars.next() {
+                                if let Some(hex_digit) = chars.next_if(char::is_ascii_hexdigit) {
                                     unicode_buf.push(hex_digit);
                                 } else {
                                     return Err(ParseError::InvalidUnicodeEscapeSequence);
-- 
2.43.0


From 84c9e61c775390700094a6b18ad0de520e0a462e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 05/67] fix: an escaped backslash does not escape the closing
 delimiter of a multi-line string

---
 crates/tombi-lexer/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lexer/src/lib.rs b/crates/tombi-lexer/src/lib.rs
index 2ca97d7..1beb2a9 100644
--- a/crates/tombi-lexer/src/lib.rs
+++ b/crates/tombi-lexer/src/lib.rs
@@ -422,7 +422,8 @@ impl Cursor<'_> {
                     ));
                 }
                 '\\' => {
-                    was_quote = true;
+                    // a backslash that is itself escaped escapes nothing
+                    was_quote = !was_quote;
                 }
                 _ => {
                     was_quote = false;
-- 
2.43.0


From 3b289e1b4517d58419413be9a573bc849c469531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 06/67] fix: reject dotted keys that add to a table defined by
 a header

---
 crates/tombi-document-tree/src/value/table.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index b4ef04e..ede1760 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -297,6 +297,16 @@ impl Table {
                 tombi_hashmap::map::Entry::Occupied(mut entry) => {
                     let value1 = entry.get_mut();
                     match (value1, value2) {
+                        // Dotted keys cannot add to a table defined by a header.
+                        (Value::Table(table1), Value::Table(table2))
+                            if table1.kind == Table
+                                && matches!(table2.kind, ParentKey | KeyValue) =>
+                        {
+                            errors.push(crate::Error::ConflictTable {
+                                range1: table1.symbol_range,
+                                range2: table2.symbol_range,
+                            });
+                        }
                         (Value::Table(table1), Value::Table(table2)) => {
                             if let Err(errs) = table1.merge(table2) {
                                 errors.extend(errs);
-- 
2.43.0


From 26a2b9598a0a4a586e0568c46399f21985069d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:31 +0000
Subject: [PATCH 07/67] fix: compute the indentation width without u8 overflow

---
 crates/tombi-formatter/src/formatter.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 21b03cc..0e2dec6 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -15,7 +15,7 @@ use crate::{
 
 pub struct Formatter<'a> {
     toml_version: TomlVersion,
-    indent_depth: u8,
+    indent_depth: usize,
     skip_indent: bool,
     skip_comment: bool,
     single_line_mode: bool,
@@ -385,10 +385,10 @@ impl<'a> Formatter<'a> {
     }
 
     #[inline]
-    fn indent(&self, depth: u8) -> String {
+    fn indent(&self, depth: usize) -> String {
         match self.definitions.indent_style {
-            IndentStyle::Space => " ".repeat((self.definitions.indent_width * depth) as usize),
-            IndentStyle::Tab => "\t".repeat(depth as usize),
+            IndentStyle::Space => " ".repeat(usize::from(self.definitions.indent_width) * depth),
+            IndentStyle::Tab => "\t".repeat(depth),
         }
     }
 
-- 
2.43.0


From 615411fb7b9c642acdc41facd81c06bba14f1198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:55 +0000
Subject: [PATCH 08/67] fix: measure dotted keys as formatted when aligning
 equals signs

---
 crates/tombi-formatter/src/formatter.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-formatter/src/formatter.rs b/crates/tombi-formatter/src/formatter.rs
index 0e2dec6..cf38d0d 100644
--- a/crates/tombi-formatter/src/formatter.rs
+++ b/crates/tombi-formatter/src/formatter.rs
@@ -2,7 +2,7 @@ pub mod definitions;
 
 use std::fmt::Write;
 
-use itertools::Either;
+use itertools::{Either, Itertools};
 use tombi_ast::AstNode;
 use tombi_config::{IndentStyle, TomlVersion};
 use tombi_diagnostic::{Diagnostic, SetDiagnostics};
@@ -362,7 +362,7 @@ impl<'a> Formatter<'a> {
         if self.definitions.key_value_equal_alignment {
             key_values
                 .filter_map(|key_value| key_value.keys())
-                .map(|keys| AlignmentWidth::new(&keys.to_string()))
+                .map(|keys| AlignmentWidth::new(&keys.keys().join(".")))
                 .max()
         } else {
             None
-- 
2.43.0


From ae561d5048814d200de0e9c5ea295a4c260c9b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:32 +0000
Subject: [PATCH 09/67] fix: keep a comment group at the end of a table apart
 from the next header

---
 crates/tombi-formatter/src/format/root.rs | 35 +++++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/tombi-formatter/src/format/root.rs b/crates/tombi-formatter/src/format/root.rs
index 2f70072..10357bf 100644
--- a/crates/tombi-formatter/src/format/root.rs
+++ b/crates/tombi-formatter/src/format/root.rs
@@ -21,6 +21,10 @@ impl Format for tombi_ast::Root {
             key_value_groups
         )
         .collect_vec();
+        let ends_with_comment_group = matches!(
+            groups.last(),
+            Some(DanglingCommentGroupOr::DanglingCommentGroup(_))
+        );
 
         groups.format(f)?;
 
@@ -34,6 +38,8 @@ impl Format for tombi_ast::Root {
                     blank_lines_before(&table_or_array_of_tables[0])
                         .min(f.group_blank_lines_limit()),
                 )?;
+            } else if ends_with_comment_group {
+                f.write_blank_lines(f.table_blank_lines().max(1))?;
             } else {
                 f.write_blank_lines(f.table_blank_lines())?;
             }
@@ -51,6 +57,12 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
             if i != 0 {
                 f.write_line_ending()?;
             }
+            // Without a blank line, comments ending a table would become leading comments of the next one.
+            let table_blank_lines = if i != 0 && ends_with_comment_group(&self[i - 1]) {
+                f.table_blank_lines().max(1)
+            } else {
+                f.table_blank_lines()
+            };
             match table_or_array_of_table {
                 tombi_ast::TableOrArrayOfTable::Table(table) => {
                     let header_keys = table.header().unwrap().keys();
@@ -74,7 +86,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -106,7 +118,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || has_dangling_comments
                                 || array_of_table.header_leading_comments().next().is_some()
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -121,7 +133,7 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
                                 || pre_header_keys.same_as(&header_keys)
                                 || has_dangling_comments
                             {
-                                for _ in 0..f.table_blank_lines() {
+                                for _ in 0..table_blank_lines {
                                     f.write_line_ending()?;
                                 }
                             }
@@ -143,6 +155,23 @@ impl Format for Vec<tombi_ast::TableOrArrayOfTable> {
     }
 }
 
+fn ends_with_comment_group(table: &tombi_ast::TableOrArrayOfTable) -> bool {
+    let (last_group, has_dangling_comments) = match table {
+        tombi_ast::TableOrArrayOfTable::Table(table) => (
+            table.key_value_groups().last(),
+            table.dangling_comment_groups().next().is_some(),
+        ),
+        tombi_ast::TableOrArrayOfTable::ArrayOfTable(table) => (
+            table.key_value_groups().last(),
+            table.dangling_comment_groups().next().is_some(),
+        ),
+    };
+    match last_group {
+        Some(group) => matches!(group, DanglingCommentGroupOr::DanglingCommentGroup(_)),
+        None => has_dangling_comments,
+    }
+}
+
 #[derive(Debug)]
 enum Header {
     Root,
-- 
2.43.0


From 7a15056a9cc4332f892793c74ef26bca44ff92bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:12 +0000
Subject: [PATCH 10/67] fix: count the columns of lexer tokens in grapheme
 clusters, like the syntax tree

---
 crates/tombi-lexer/src/cursor.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-lexer/src/cursor.rs b/crates/tombi-lexer/src/cursor.rs
index c1d4463..8e10e87 100644
--- a/crates/tombi-lexer/src/cursor.rs
+++ b/crates/tombi-lexer/src/cursor.rs
@@ -1,11 +1,11 @@
 use tombi_text::LineEnding;
 
 pub struct Cursor<'a> {
+    source: &'a str,
     /// Iterator over chars. Slightly faster than a &str.
     chars: std::str::Chars<'a>,
     current_char: char,
     current_offset: tombi_text::Offset,
-    current_position: tombi_text::Position,
     token_start_offset: tombi_text::Offset,
     token_start_position: tombi_text::Position,
     pub(crate) line_ending: LineEnding,
@@ -19,10 +19,10 @@ impl<'a> Cursor<'a> {
         let current = chars.clone().next().unwrap_or(EOF_CHAR);
 
         Cursor {
+            source: input,
             chars,
             current_char: current,
             current_offset: Default::default(),
-            current_position: Default::default(),
             token_start_offset: Default::default(),
             token_start_position: Default::default(),
             line_ending: LineEnding::default(),
@@ -123,7 +123,6 @@ impl<'a> Cursor<'a> {
     pub(crate) fn bump(&mut self) -> Option<char> {
         if let Some(c) = self.chars.next() {
             self.current_offset += tombi_text::Offset::new(c.len_utf8() as u32);
-            self.current_position += tombi_text::RelativePosition::from(c);
             self.current_char = c;
             Some(c)
         } else {
@@ -155,10 +154,11 @@ impl<'a> Cursor<'a> {
         let start_offset = self.token_start_offset;
         let end_offset = self.current_offset;
         let start_position = self.token_start_position;
-        let end_position = self.current_position;
+        let token_text = &self.source[start_offset.into()..end_offset.into()];
+        let end_position = start_position + tombi_text::RelativePosition::of(token_text);
 
-        self.token_start_offset = self.current_offset;
-        self.token_start_position = self.current_position;
+        self.token_start_offset = end_offset;
+        self.token_start_position = end_position;
 
         (
             tombi_text::Span::new(start_offset, end_offset),
-- 
2.43.0


From cda7053ed83e18a3f14b94e30702de53ae4a4566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:43 +0000
Subject: [PATCH 11/67] fix: find the enclosing array of tables across other
 headers and only within its last element

---
 crates/tombi-ast/src/impls/array_of_table.rs | 24 +++++++-----------
 crates/tombi-ast/src/impls/table.rs          | 26 ++++++++------------
 2 files changed, 19 insertions(+), 31 deletions(-)

diff --git a/crates/tombi-ast/src/impls/array_of_table.rs b/crates/tombi-ast/src/impls/array_of_table.rs
index 4bf379f..63fcf55 100644
--- a/crates/tombi-ast/src/impls/array_of_table.rs
+++ b/crates/tombi-ast/src/impls/array_of_table.rs
@@ -151,27 +151,21 @@ impl crate::ArrayOfTable {
     pub fn parrent_array_of_tables_keys(
         &self,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
+        let mut min_depth = usize::MAX;
+
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(TomlVersion::latest()),
-                        b.try_to_raw_text(TomlVersion::latest()),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(move |keys| {
+                // A later `[[a]]` starts a new element, which hides an earlier `[[a.b]]`.
+                let depth = keys.clone().count();
+                let visible = depth <= min_depth;
+                min_depth = min_depth.min(depth);
+                visible
+            })
     }
 }
diff --git a/crates/tombi-ast/src/impls/table.rs b/crates/tombi-ast/src/impls/table.rs
index 18eb2c5..da41022 100644
--- a/crates/tombi-ast/src/impls/table.rs
+++ b/crates/tombi-ast/src/impls/table.rs
@@ -150,29 +150,23 @@ impl crate::Table {
     #[inline]
     pub fn parent_array_of_tables_keys(
         &self,
-        toml_version: TomlVersion,
+        _toml_version: TomlVersion,
     ) -> impl Iterator<Item = AstChildren<crate::Key>> + '_ {
+        let mut min_depth = usize::MAX;
+
         support::node::prev_siblings_nodes(self)
             .filter_map(|node: ArrayOfTable| node.header().map(|header| header.keys()))
-            .take_while(move |keys| {
-                match (
-                    self.header().and_then(|header| header.keys().next()),
-                    keys.clone().next(),
-                ) {
-                    (Some(a), Some(b)) => match (
-                        a.try_to_raw_text(toml_version),
-                        b.try_to_raw_text(toml_version),
-                    ) {
-                        (Ok(a), Ok(b)) => a == b,
-                        _ => false,
-                    },
-                    _ => false,
-                }
-            })
             .filter(|keys| {
                 self.header()
                     .map(|header_keys| header_keys.keys().starts_with(keys))
                     .unwrap_or_default()
             })
+            .filter(move |keys| {
+                // A later `[[a]]` starts a new element, which hides an earlier `[[a.b]]`.
+                let depth = keys.clone().count();
+                let visible = depth <= min_depth;
+                min_depth = min_depth.min(depth);
+                visible
+            })
     }
 }
-- 
2.43.0


From 3bdfb612aff3a59fa5785886a97461ecbc7a9442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 12/67] fix: count string length in code points, as JSON Schema
 does

---
 crates/tombi-validator/src/validate/string.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-validator/src/validate/string.rs b/crates/tombi-validator/src/validate/string.rs
index 30e40c1..5d5025c 100644
--- a/crates/tombi-validator/src/validate/string.rs
+++ b/crates/tombi-validator/src/validate/string.rs
@@ -8,7 +8,6 @@ use tombi_regex::Regex;
 use tombi_schema_store::SchemaView;
 use tombi_severity_level::{SeverityLevelDefaultError, SeverityLevelDefaultWarn};
 use tombi_x_keyword::StringFormat;
-use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{
     comment_directive::{
@@ -474,7 +473,8 @@ pub(crate) fn validate_raw_string<'a>(
         );
     }
 
-    let length = UnicodeSegmentation::graphemes(value, true).count();
+    // JSON Schema counts characters as RFC 8259 does: in code points.
+    let length = value.chars().count();
 
     if let Some(max_length) = &string_schema.max_length
         && length > *max_length
-- 
2.43.0


From 29a0174d21a54608ec5184fe4eabb0b74edb6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:49 +0000
Subject: [PATCH 13/67] fix: honour non-integral bounds on integer values

---
 .../src/schema/integer_schema.rs              | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/integer_schema.rs b/crates/tombi-schema-store/src/schema/integer_schema.rs
index 00e0028..98bc869 100644
--- a/crates/tombi-schema-store/src/schema/integer_schema.rs
+++ b/crates/tombi-schema-store/src/schema/integer_schema.rs
@@ -43,10 +43,11 @@ impl IntegerSchema {
             description: object
                 .get("description")
                 .and_then(|v| v.as_str().map(|s| s.to_string())),
-            minimum: object.get("minimum").and_then(|v| v.as_i64()),
-            maximum: object.get("maximum").and_then(|v| v.as_i64()),
-            exclusive_minimum: object.get("exclusiveMinimum").and_then(|v| v.as_i64()),
-            exclusive_maximum: object.get("exclusiveMaximum").and_then(|v| v.as_i64()),
+            // A bound need not be an integer: round it to the integer bound that admits the same integers.
+            minimum: integer_bound(object, "minimum", f64::ceil),
+            maximum: integer_bound(object, "maximum", f64::floor),
+            exclusive_minimum: integer_bound(object, "exclusiveMinimum", f64::floor),
+            exclusive_maximum: integer_bound(object, "exclusiveMaximum", f64::ceil),
             multiple_of: object.get("multipleOf").and_then(|v| v.as_i64()),
             r#enum: object
                 .get("enum")
@@ -75,3 +76,14 @@ impl IntegerSchema {
         self.deprecation.as_ref().map(|_| true)
     }
 }
+
+fn integer_bound(
+    object: &tombi_json::ObjectNode,
+    keyword: &str,
+    round: fn(f64) -> f64,
+) -> Option<i64> {
+    let value = object.get(keyword)?;
+    value
+        .as_i64()
+        .or_else(|| value.as_f64().map(|bound| round(bound) as i64))
+}
-- 
2.43.0


From d107a7cb9171726dacaa85b228580d0a3ee89163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:23 +0000
Subject: [PATCH 14/67] fix: reject control characters in comments between
 groups of keys and values

---
 crates/tombi-document-tree/src/root.rs        | 3 +++
 crates/tombi-document-tree/src/value/array.rs | 3 +++
 crates/tombi-document-tree/src/value/table.rs | 9 +++++++++
 3 files changed, 15 insertions(+)

diff --git a/crates/tombi-document-tree/src/root.rs b/crates/tombi-document-tree/src/root.rs
index 4307cca..0e7f5e5 100644
--- a/crates/tombi-document-tree/src/root.rs
+++ b/crates/tombi-document-tree/src/root.rs
@@ -80,6 +80,9 @@ impl IntoDocumentTreeAndErrors<crate::DocumentTree> for tombi_ast::Root {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
diff --git a/crates/tombi-document-tree/src/value/array.rs b/crates/tombi-document-tree/src/value/array.rs
index 69eede8..58976af 100644
--- a/crates/tombi-document-tree/src/value/array.rs
+++ b/crates/tombi-document-tree/src/value/array.rs
@@ -336,6 +336,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::Array {
                 }
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
diff --git a/crates/tombi-document-tree/src/value/table.rs b/crates/tombi-document-tree/src/value/table.rs
index ede1760..64b9649 100644
--- a/crates/tombi-document-tree/src/value/table.rs
+++ b/crates/tombi-document-tree/src/value/table.rs
@@ -594,6 +594,9 @@ impl IntoDocumentTreeAndErrors<crate::Table> for tombi_ast::Table {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -723,6 +726,9 @@ impl IntoDocumentTreeAndErrors<Table> for tombi_ast::ArrayOfTable {
                     }
                     tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                         for comment in comment_group.comments() {
+                            if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                                errors.push(error);
+                            }
                             if let Some(comment_directive) = comment.get_tombi_value_directive() {
                                 group_boundary_comment_directives.push(comment_directive);
                             }
@@ -974,6 +980,9 @@ impl IntoDocumentTreeAndErrors<crate::Value> for tombi_ast::InlineTable {
             match group {
                 tombi_ast::DanglingCommentGroupOr::DanglingCommentGroup(comment_group) => {
                     for comment in comment_group.comments() {
+                        if let Err(error) = crate::support::comment::try_new_comment(&comment) {
+                            errors.push(error);
+                        }
                         if let Some(comment_directive) = comment.get_tombi_value_directive() {
                             group_boundary_comment_directives.push(comment_directive);
                         }
-- 
2.43.0


From e4e0d2256fe198dfa318b6bf3ea985c223025804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:21 +0000
Subject: [PATCH 15/67] fix: accept a blank line between a comment and the
 comma it precedes

---
 .../src/parse/key_value_with_comma_group.rs        | 14 ++++++++------
 .../src/parse/value_with_comma_group.rs            | 14 ++++++++------
 crates/tombi-parser/src/support/comment.rs         | 14 ++++++++++++++
 3 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
index d15936d..fac3687 100644
--- a/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/key_value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma, peek_leading_comments},
     token_set::{TS_INLINE_TABLE_END, TS_KEY_FIRST},
 };
 
@@ -18,11 +18,13 @@ impl Parse for tombi_ast::KeyValueWithCommaGroup {
 
             tombi_ast::KeyValue::parse(p);
 
-            let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if peek_comma(p) {
                 tombi_ast::Comma::parse(p);
-            } else if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
-                break;
+            } else {
+                let n = peek_leading_comments(p);
+                if p.nth_at_ts(n, TS_INLINE_TABLE_END) {
+                    break;
+                }
             }
 
             let n = peek_leading_comments(p);
diff --git a/crates/tombi-parser/src/parse/value_with_comma_group.rs b/crates/tombi-parser/src/parse/value_with_comma_group.rs
index 5b0bb33..ffe3544 100644
--- a/crates/tombi-parser/src/parse/value_with_comma_group.rs
+++ b/crates/tombi-parser/src/parse/value_with_comma_group.rs
@@ -1,9 +1,9 @@
-use tombi_syntax::{SyntaxKind::*, T};
+use tombi_syntax::SyntaxKind::*;
 
 use crate::{
     parse::{Parse, is_group_separator},
     parser::Parser,
-    support::peek_leading_comments,
+    support::{peek_comma, peek_leading_comments},
     token_set::{TS_ARRAY_END, TS_VALUE_FIRST},
 };
 
@@ -18,11 +18,13 @@ impl Parse for tombi_ast::ValueWithCommaGroup {
 
             tombi_ast::Value::parse(p);
 
-            let n = peek_leading_comments(p);
-            if p.nth_at(n, T![,]) {
+            if peek_comma(p) {
                 tombi_ast::Comma::parse(p);
-            } else if p.nth_at_ts(n, TS_ARRAY_END) {
-                break;
+            } else {
+                let n = peek_leading_comments(p);
+                if p.nth_at_ts(n, TS_ARRAY_END) {
+                    break;
+                }
             }
 
             let n = peek_leading_comments(p);
diff --git a/crates/tombi-parser/src/support/comment.rs b/crates/tombi-parser/src/support/comment.rs
index 963176d..3cdfc16 100644
--- a/crates/tombi-parser/src/support/comment.rs
+++ b/crates/tombi-parser/src/support/comment.rs
@@ -1,3 +1,5 @@
+use tombi_syntax::T;
+
 use crate::{SyntaxKind::*, token_set::TS_LEADING_COMMENTS_KINDS};
 
 pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
@@ -16,6 +18,18 @@ pub fn peek_leading_comments(p: &mut crate::parser::Parser<'_>) -> usize {
     }
 }
 
+/// Is a comma the next token after line breaks and comments?
+///
+/// Unlike the comments before a value, those before a comma belong to the comma
+/// even if a blank line follows them.
+pub fn peek_comma(p: &mut crate::parser::Parser<'_>) -> bool {
+    let mut n = 0;
+    while p.nth_at_ts(n, TS_LEADING_COMMENTS_KINDS) {
+        n += 1;
+    }
+    p.nth_at(n, T![,])
+}
+
 #[inline]
 pub fn leading_comments(p: &mut crate::parser::Parser<'_>) {
     while p.eat_ts(TS_LEADING_COMMENTS_KINDS) {}
-- 
2.43.0


From 679122fb7da3dda9a8688cad327e8f46a9f9c1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:11 +0000
Subject: [PATCH 16/67] fix: accept a zero with an upper-case exponent

---
 crates/tombi-ast/src/support/literal/float.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/tombi-ast/src/support/literal/float.rs b/crates/tombi-ast/src/support/literal/float.rs
index 744c7a8..d304ca3 100644
--- a/crates/tombi-ast/src/support/literal/float.rs
+++ b/crates/tombi-ast/src/support/literal/float.rs
@@ -24,11 +24,7 @@ pub fn try_from_float(value: &str) -> Result<f64, self::ParseError> {
         return Err(self::ParseError::Underscore);
     }
 
-    let int_slice = if value.contains('.') {
-        value.split('.').next().unwrap()
-    } else {
-        value.split('e').next().unwrap()
-    };
+    let int_slice = value.split(['.', 'e', 'E']).next().unwrap();
 
     let int_number = if int_slice.starts_with("+") || int_slice.starts_with("-") {
         &int_slice[1..]
-- 
2.43.0


From 07869890298c2b8ce6b01d0a1bcf807c0a2b3a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 17/67] fix: compare version-sort numbers that do not fit in a
 machine word

---
 crates/tombi-version-sort/src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-version-sort/src/lib.rs b/crates/tombi-version-sort/src/lib.rs
index 110a299..2cceb56 100644
--- a/crates/tombi-version-sort/src/lib.rs
+++ b/crates/tombi-version-sort/src/lib.rs
@@ -41,7 +41,8 @@ impl<'a> VersionChunkIter<'a> {
         };
 
         let zeros = source.chars().take_while(|c| *c == '0').count();
-        let value = source.parse::<usize>().ok()?;
+        // A number that does not fit is compared by its digits.
+        let value = source.parse::<usize>().unwrap_or(usize::MAX);
 
         Some(VersionChunk::Number {
             value,
@@ -219,14 +220,18 @@ pub fn version_sort(a: &str, b: &str) -> std::cmp::Ordering {
                     VersionChunk::Number {
                         value: va,
                         zeros: lza,
-                        ..
+                        source: sa,
                     },
                     VersionChunk::Number {
                         value: vb,
                         zeros: lzb,
-                        ..
+                        source: sb,
                     },
-                ) => match va.cmp(&vb) {
+                ) => match va
+                    .cmp(&vb)
+                    .then_with(|| (sa.len() - lza).cmp(&(sb.len() - lzb)))
+                    .then_with(|| sa[lza..].cmp(&sb[lzb..]))
+                {
                     std::cmp::Ordering::Equal => {
                         if lza == lzb {
                             continue;
-- 
2.43.0


From a165a99a104c09e67d90eb8c24d7acd0ee018dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 18/67] fix: refuse JSON numbers with superfluous leading zeros

---
 crates/tombi-json-lexer/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-json-lexer/src/lib.rs b/crates/tombi-json-lexer/src/lib.rs
index 90ba8e5..0887f77 100644
--- a/crates/tombi-json-lexer/src/lib.rs
+++ b/crates/tombi-json-lexer/src/lib.rs
@@ -21,7 +21,7 @@ macro_rules! regex {
 
 regex!(
     REGEX_INTEGER_DEC = r"^-?(:?[1-9](:?[0-9])*|0)$";
-    REGEX_FLOAT = r"^-?[0-9]+(:?(:?\.[0-9]+)?[eE][+-]?[0-9]+|\.[0-9]+)$";
+    REGEX_FLOAT = r"^-?(:?0|[1-9][0-9]*)(:?(:?\.[0-9]+)?[eE][+-]?[0-9]+|\.[0-9]+)$";
 );
 
 pub fn lex(source: &str) -> Lexed {
-- 
2.43.0


From 50a293d0df0910c6b7b3725e82630f64800fe624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 19/67] fix: read JSON integers that fit in 64 bits exactly

---
 crates/tombi-json/src/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tombi-json/src/parser.rs b/crates/tombi-json/src/parser.rs
index 5ed9c4e..508fd11 100644
--- a/crates/tombi-json/src/parser.rs
+++ b/crates/tombi-json/src/parser.rs
@@ -181,6 +181,14 @@ impl<'a> Parser<'a> {
                         let num_str = &self.source[span.start.into()..span.end.into()];
                         self.advance();
 
+                        // An integer that fits is exact
+                        if let Ok(n) = num_str.parse::<i64>() {
+                            return Ok(ValueNode::Number(NumberNode {
+                                value: Number::from(n),
+                                range,
+                            }));
+                        }
+
                         // Parse as f64
                         match num_str.parse::<f64>() {
                             Ok(n) => {
-- 
2.43.0


From bbb1bab0770115eeeb0e8621b78693654976c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:55 +0000
Subject: [PATCH 20/67] fix: escape control characters with escapes that every
 TOML version has

---
 crates/tombi-toml-text/src/lib.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/tombi-toml-text/src/lib.rs b/crates/tombi-toml-text/src/lib.rs
index 546afde..5a9e59b 100644
--- a/crates/tombi-toml-text/src/lib.rs
+++ b/crates/tombi-toml-text/src/lib.rs
@@ -292,15 +292,11 @@ pub fn to_basic_string(value: &str) -> String {
         match c {
             '"' => result.push_str("\\\""),
             '\\' => result.push_str("\\\\"),
-            '\x00' => result.push_str("\\0"),
-            '\x07' => result.push_str("\\a"),
             '\x08' => result.push_str("\\b"),
             '\x09' => result.push_str("\\t"),
             '\x0a' => result.push_str("\\n"),
-            '\x0b' => result.push_str("\\v"),
             '\x0c' => result.push_str("\\f"),
             '\x0d' => result.push_str("\\r"),
-            '\x1b' => result.push_str("\\e"),
             c if c.is_control() => {
                 result.push_str(&format!("\\u{:04x}", c as u32));
             }
-- 
2.43.0


From 794ee8e07386ed9f7e1a26dfbf20761c441b58bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 21/67] fix: escape string values when serializing

---
 rust/serde_tombi/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index 6d85773..d12bc8b 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -49,7 +49,7 @@ impl ToTomlString for tombi_document::Value {
         parent_keys: &[&tombi_document::Key],
     ) {
         match self {
-            tombi_document::Value::String(s) => result.push_str(&format!("\"{}\"", s.value())),
+            tombi_document::Value::String(s) => s.to_toml_string(result, parent_keys),
             tombi_document::Value::Integer(i) => result.push_str(&i.value().to_string()),
             tombi_document::Value::Float(f) => result.push_str(&f.value().to_string()),
             tombi_document::Value::Boolean(b) => result.push_str(&b.value().to_string()),
-- 
2.43.0


From 1c0d767bd9751768a948ac0a20154a2db94e5107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 22/67] fix: serialize whole floats as floats

---
 rust/serde_tombi/src/document.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index d12bc8b..6ab7c7f 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -51,7 +51,7 @@ impl ToTomlString for tombi_document::Value {
         match self {
             tombi_document::Value::String(s) => s.to_toml_string(result, parent_keys),
             tombi_document::Value::Integer(i) => result.push_str(&i.value().to_string()),
-            tombi_document::Value::Float(f) => result.push_str(&f.value().to_string()),
+            tombi_document::Value::Float(f) => f.to_toml_string(result, parent_keys),
             tombi_document::Value::Boolean(b) => result.push_str(&b.value().to_string()),
             tombi_document::Value::Array(a) => a.to_toml_string(result, parent_keys),
             tombi_document::Value::Table(t) => t.to_toml_string(result, parent_keys),
@@ -256,7 +256,8 @@ impl ToTomlString for tombi_document::Float {
         } else if self.value().is_nan() {
             result.push_str("nan");
         } else {
-            result.push_str(&self.value().to_string());
+            // `Debug` keeps the fraction of a whole number.
+            result.push_str(&format!("{:?}", self.value()));
         }
     }
 }
-- 
2.43.0


From 6546eeb073aa3de9b7d96055201c753827de7fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:29 +0000
Subject: [PATCH 23/67] fix: quote keys that are no bare keys when serializing

---
 rust/serde_tombi/src/document.rs | 38 +++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index 6ab7c7f..f8af4a3 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -33,7 +33,7 @@ impl ToTomlString for (&tombi_document::Key, &tombi_document::Value) {
             _ => {
                 result.push_str(&format!(
                     "{} = ",
-                    parent_keys.iter().chain(&[key]).copied().join(".")
+                    keys_to_toml_string(parent_keys.iter().chain(&[key]).copied())
                 ));
                 value.to_toml_string(result, &[]);
             }
@@ -98,11 +98,7 @@ impl ToTomlString for tombi_document::Table {
                 if !parent_keys.is_empty() {
                     result.push_str(&format!(
                         "[{}]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
+                        keys_to_toml_string(parent_keys.iter().copied())
                     ));
                 }
 
@@ -151,12 +147,32 @@ impl ToTomlString for tombi_document::Table {
     }
 }
 
+/// A dotted key, quoting the parts that are no bare keys.
+fn keys_to_toml_string<'a>(
+    keys: impl IntoIterator<Item = &'a tombi_document::Key>,
+) -> std::string::String {
+    keys.into_iter()
+        .map(|key| {
+            let value = key.value();
+            if !value.is_empty()
+                && value
+                    .chars()
+                    .all(|c| matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '-'))
+            {
+                value.to_string()
+            } else {
+                tombi_toml_text::to_basic_string(value)
+            }
+        })
+        .join(".")
+}
+
 fn inline_table_entry_to_toml_string(
     result: &mut std::string::String,
     key: &tombi_document::Key,
     value: &tombi_document::Value,
 ) {
-    result.push_str(&format!("{key} = "));
+    result.push_str(&format!("{} = ", keys_to_toml_string([key])));
     match value {
         tombi_document::Value::Table(table)
             if table.kind() == tombi_document::TableKind::KeyValue =>
@@ -197,11 +213,7 @@ impl ToTomlString for tombi_document::Array {
                 for value in self.values().iter() {
                     result.push_str(&format!(
                         "[[{}]]\n",
-                        parent_keys
-                            .iter()
-                            .map(ToString::to_string)
-                            .collect_vec()
-                            .join(".")
+                        keys_to_toml_string(parent_keys.iter().copied())
                     ));
                     if let tombi_document::Value::Table(table) = value {
                         for (key, value) in table.key_values() {
@@ -215,7 +227,7 @@ impl ToTomlString for tombi_document::Array {
                                     );
                                 }
                                 _ => {
-                                    result.push_str(&format!("{key} = "));
+                                    result.push_str(&format!("{} = ", keys_to_toml_string([key])));
                                     value.to_toml_string(
                                         result,
                                         &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-- 
2.43.0


From 4d873c56459aba29980b1665eee73f50ab825eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:42 +0000
Subject: [PATCH 24/67] fix: serialize tables below arrays of tables under
 their own headers

---
 rust/serde_tombi/src/document.rs | 80 ++++++++++++++------------------
 1 file changed, 35 insertions(+), 45 deletions(-)

diff --git a/rust/serde_tombi/src/document.rs b/rust/serde_tombi/src/document.rs
index f8af4a3..4a94bd8 100644
--- a/rust/serde_tombi/src/document.rs
+++ b/rust/serde_tombi/src/document.rs
@@ -102,31 +102,7 @@ impl ToTomlString for tombi_document::Table {
                     ));
                 }
 
-                let mut table_key_values = Vec::new();
-                for (key, value) in self.key_values() {
-                    match value {
-                        tombi_document::Value::Table(table)
-                            if table.kind() == tombi_document::TableKind::Table =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        tombi_document::Value::Array(array)
-                            if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
-                        {
-                            table_key_values.push((key, value));
-                            continue;
-                        }
-                        _ => (key, value).to_toml_string(result, &[]),
-                    }
-                }
-
-                for (key, value) in table_key_values {
-                    value.to_toml_string(
-                        result,
-                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                    );
-                }
+                table_body_to_toml_string(self, result, parent_keys);
             }
             tombi_document::TableKind::InlineTable => {
                 result.push('{');
@@ -147,6 +123,39 @@ impl ToTomlString for tombi_document::Table {
     }
 }
 
+/// The entries of a table below its header; its sub-tables follow under their own headers.
+fn table_body_to_toml_string(
+    table: &tombi_document::Table,
+    result: &mut std::string::String,
+    parent_keys: &[&tombi_document::Key],
+) {
+    let mut table_key_values = Vec::new();
+    for (key, value) in table.key_values() {
+        match value {
+            tombi_document::Value::Table(table)
+                if table.kind() == tombi_document::TableKind::Table =>
+            {
+                table_key_values.push((key, value));
+                continue;
+            }
+            tombi_document::Value::Array(array)
+                if array.kind() == tombi_document::ArrayKind::ArrayOfTable =>
+            {
+                table_key_values.push((key, value));
+                continue;
+            }
+            _ => (key, value).to_toml_string(result, &[]),
+        }
+    }
+
+    for (key, value) in table_key_values {
+        value.to_toml_string(
+            result,
+            &parent_keys.iter().chain(&[key]).copied().collect_vec(),
+        );
+    }
+}
+
 /// A dotted key, quoting the parts that are no bare keys.
 fn keys_to_toml_string<'a>(
     keys: impl IntoIterator<Item = &'a tombi_document::Key>,
@@ -216,26 +225,7 @@ impl ToTomlString for tombi_document::Array {
                         keys_to_toml_string(parent_keys.iter().copied())
                     ));
                     if let tombi_document::Value::Table(table) = value {
-                        for (key, value) in table.key_values() {
-                            match value {
-                                tombi_document::Value::Table(table)
-                                    if table.kind() == tombi_document::TableKind::KeyValue =>
-                                {
-                                    table.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                                _ => {
-                                    result.push_str(&format!("{} = ", keys_to_toml_string([key])));
-                                    value.to_toml_string(
-                                        result,
-                                        &parent_keys.iter().chain(&[key]).copied().collect_vec(),
-                                    );
-                                }
-                            }
-                            result.push('\n');
-                        }
+                        table_body_to_toml_string(table, result, parent_keys);
                     }
                 }
             }
-- 
2.43.0


From ffa32f356ff38f980145e15b1cd15ba9c63e47e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:47 +0000
Subject: [PATCH 25/67] fix: serialize empty and mixed sequences inline

---
 rust/serde_tombi/src/ser.rs | 40 +++++++++++++------------------------
 1 file changed, 14 insertions(+), 26 deletions(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 124f258..349d484 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -409,7 +409,7 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
     where
         T: ?Sized + Serialize,
     {
-        let Some(mut value) = value.serialize(&mut ValueSerializer {
+        let Some(value) = value.serialize(&mut ValueSerializer {
             accessors: self.accessors,
         })?
         else {
@@ -420,29 +420,8 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
                 tombi_schema_store::Accessors::from(accessors),
             ));
         };
-        match &mut value {
-            tombi_document::Value::Boolean(_)
-            | tombi_document::Value::Integer(_)
-            | tombi_document::Value::Float(_)
-            | tombi_document::Value::String(_)
-            | tombi_document::Value::LocalDate(_)
-            | tombi_document::Value::LocalDateTime(_)
-            | tombi_document::Value::LocalTime(_)
-            | tombi_document::Value::OffsetDateTime(_) => {
-                self.kind = tombi_document::ArrayKind::Array;
-            }
-            tombi_document::Value::Array(array) => {
-                if self.kind == tombi_document::ArrayKind::Array {
-                    let array_kind = array.kind_mut();
-                    *array_kind = tombi_document::ArrayKind::Array;
-                }
-            }
-            tombi_document::Value::Table(table) => {
-                if self.kind == tombi_document::ArrayKind::Array {
-                    let table_kind = table.kind_mut();
-                    *table_kind = tombi_document::TableKind::InlineTable;
-                }
-            }
+        if !matches!(value, tombi_document::Value::Table(_)) {
+            self.kind = tombi_document::ArrayKind::Array;
         }
         self.values.push(value);
 
@@ -450,8 +429,17 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
     }
 
     fn end(self) -> Result<Self::Ok, Self::Error> {
-        let mut array = tombi_document::Array::new(self.kind);
-        for value in self.values {
+        // Only a non-empty sequence of tables can be written with `[[key]]` headers.
+        let kind = if self.values.is_empty() {
+            tombi_document::ArrayKind::Array
+        } else {
+            self.kind
+        };
+        let mut array = tombi_document::Array::new(kind);
+        for mut value in self.values {
+            if kind == tombi_document::ArrayKind::Array {
+                force_inline(&mut value);
+            }
             array.push(value);
         }
         Ok(Some(tombi_document::Value::Array(array)))
-- 
2.43.0


From 937b8774ed002b147e72c60b00f10caacaf7c8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 26/67] fix: refuse to serialize integers beyond 64 bits signed

---
 rust/serde_tombi/src/ser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index 349d484..c82bd1c 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -207,7 +207,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     }
 
     fn serialize_u64(self, v: u64) -> Result<Self::Ok, Self::Error> {
-        self.serialize_i64(v as i64)
+        self.serialize_i64(i64::try_from(v).map_err(<Self::Error as serde::ser::Error>::custom)?)
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 750550222ad37053c9b91b3dfdf7032c0e2d49b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:03 +0000
Subject: [PATCH 27/67] fix: keep the variant name of enum values when
 serializing

---
 rust/serde_tombi/src/ser.rs | 48 ++++++++++++++++++++++++++++++++-----
 1 file changed, 42 insertions(+), 6 deletions(-)

diff --git a/rust/serde_tombi/src/ser.rs b/rust/serde_tombi/src/ser.rs
index c82bd1c..bb053fb 100644
--- a/rust/serde_tombi/src/ser.rs
+++ b/rust/serde_tombi/src/ser.rs
@@ -302,18 +302,21 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         value: &T,
     ) -> Result<Self::Ok, Self::Error>
     where
         T: ?Sized + Serialize,
     {
-        value.serialize(&mut *self)
+        Ok(value
+            .serialize(&mut *self)?
+            .map(|value| variant_table(Some(variant), value)))
     }
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         Ok(SerializeArray {
             kind: tombi_document::ArrayKind::ArrayOfTable,
+            variant: None,
             accessors: self.accessors,
             values: match len {
                 Some(len) => Vec::with_capacity(len),
@@ -325,6 +328,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     fn serialize_tuple(self, len: usize) -> Result<Self::SerializeTuple, Self::Error> {
         Ok(SerializeArray {
             kind: tombi_document::ArrayKind::ArrayOfTable,
+            variant: None,
             accessors: self.accessors,
             values: Vec::with_capacity(len),
         })
@@ -337,6 +341,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
     ) -> Result<Self::SerializeTupleStruct, Self::Error> {
         Ok(SerializeArray {
             kind: tombi_document::ArrayKind::ArrayOfTable,
+            variant: None,
             accessors: self.accessors,
             values: Vec::with_capacity(len),
         })
@@ -346,11 +351,12 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeTupleVariant, Self::Error> {
         Ok(SerializeArray {
             kind: tombi_document::ArrayKind::ArrayOfTable,
+            variant: Some(variant),
             accessors: self.accessors,
             values: Vec::with_capacity(len),
         })
@@ -360,6 +366,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         Ok(SerializeTable {
             accessors: self.accessors,
             key: None,
+            variant: None,
             key_values: match len {
                 Some(len) => Vec::with_capacity(len),
                 None => Vec::new(),
@@ -375,6 +382,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         Ok(SerializeTable {
             accessors: self.accessors,
             key: None,
+            variant: None,
             key_values: Vec::with_capacity(len),
         })
     }
@@ -383,12 +391,13 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
         self,
         _name: &'static str,
         _variant_index: u32,
-        _variant: &'static str,
+        variant: &'static str,
         len: usize,
     ) -> Result<Self::SerializeStructVariant, Self::Error> {
         Ok(SerializeTable {
             accessors: self.accessors,
             key: None,
+            variant: Some(variant),
             key_values: Vec::with_capacity(len),
         })
     }
@@ -397,6 +406,7 @@ impl<'a> serde::Serializer for &'a mut ValueSerializer<'a> {
 // Sequence serialization
 pub struct SerializeArray<'a> {
     kind: tombi_document::ArrayKind,
+    variant: Option<&'static str>,
     accessors: &'a [tombi_schema_store::Accessor],
     values: Vec<tombi_document::Value>,
 }
@@ -442,7 +452,10 @@ impl serde::ser::SerializeSeq for SerializeArray<'_> {
             }
             array.push(value);
         }
-        Ok(Some(tombi_document::Value::Array(array)))
+        Ok(Some(variant_table(
+            self.variant,
+            tombi_document::Value::Array(array),
+        )))
     }
 }
 
@@ -496,6 +509,25 @@ impl serde::ser::SerializeTupleVariant for SerializeArray<'_> {
     }
 }
 
+/// The value of an enum variant is a table with the name of the variant as its only key.
+fn variant_table(
+    variant: Option<&'static str>,
+    value: tombi_document::Value,
+) -> tombi_document::Value {
+    let Some(variant) = variant else {
+        return value;
+    };
+    let mut table = tombi_document::Table::new(tombi_document::TableKind::Table);
+    table.insert(
+        tombi_document::Key::from(tombi_document::String::new(
+            tombi_document::StringKind::BasicString,
+            variant.to_string(),
+        )),
+        value,
+    );
+    tombi_document::Value::Table(table)
+}
+
 fn force_inline(value: &mut tombi_document::Value) {
     match value {
         tombi_document::Value::Table(table) => {
@@ -518,6 +550,7 @@ fn force_inline(value: &mut tombi_document::Value) {
 pub struct SerializeTable<'a> {
     accessors: &'a [tombi_schema_store::Accessor],
     key: Option<tombi_document::Key>,
+    variant: Option<&'static str>,
     key_values: Vec<(tombi_document::Key, tombi_document::Value)>,
 }
 
@@ -583,7 +616,10 @@ impl serde::ser::SerializeMap for SerializeTable<'_> {
         for (key, value) in self.key_values {
             table.insert(key, value);
         }
-        Ok(Some(tombi_document::Value::Table(table)))
+        Ok(Some(variant_table(
+            self.variant,
+            tombi_document::Value::Table(table),
+        )))
     }
 }
 
-- 
2.43.0


From f197921f9820509893895364129f496d615a3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 28/67] fix: deserialize date-times into date-time types

---
 crates/tombi-document/src/value.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-document/src/value.rs b/crates/tombi-document/src/value.rs
index 24e27da..52ef02e 100644
--- a/crates/tombi-document/src/value.rs
+++ b/crates/tombi-document/src/value.rs
@@ -315,7 +315,24 @@ impl<'de> serde::de::Deserializer<'de> for &'de Value {
     deserialize_value!(deserialize_bool, Boolean, visit_bool);
     deserialize_value!(deserialize_i64, Integer, visit_i64);
     deserialize_value!(deserialize_f64, Float, visit_f64);
-    deserialize_value!(deserialize_str, String, visit_str);
+
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            Value::String(value) => visitor.visit_str(value.value()),
+            // Date-times deserialize from their text.
+            Value::OffsetDateTime(value) => visitor.visit_str(&value.to_string()),
+            Value::LocalDateTime(value) => visitor.visit_str(&value.to_string()),
+            Value::LocalDate(value) => visitor.visit_str(&value.to_string()),
+            Value::LocalTime(value) => visitor.visit_str(&value.to_string()),
+            _ => Err(serde::de::Error::invalid_type(
+                self.unexpected(),
+                &ValueKind::String,
+            )),
+        }
+    }
 
     fn deserialize_seq<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
-- 
2.43.0


From b9ff8495ba767ce7695f265b21c411c1a75a2ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 29/67] fix: report folding range columns in the negotiated
 encoding

---
 crates/tombi-lsp/src/handler/folding_range.rs | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/handler/folding_range.rs b/crates/tombi-lsp/src/handler/folding_range.rs
index cdc0905..daaa25f 100644
--- a/crates/tombi-lsp/src/handler/folding_range.rs
+++ b/crates/tombi-lsp/src/handler/folding_range.rs
@@ -1,5 +1,6 @@
 use itertools::Itertools;
 use tombi_ast::{AstNode, DanglingCommentGroupOr};
+use tombi_text::IntoLsp;
 use tower_lsp::lsp_types::{FoldingRange, FoldingRangeKind, FoldingRangeParams};
 
 use crate::backend::Backend;
@@ -21,7 +22,10 @@ pub async fn handle_folding_range(
         return Ok(None);
     };
 
-    let folding_ranges = create_folding_ranges(&document_source.ast());
+    let folding_ranges = create_folding_ranges(&document_source.ast())
+        .into_iter()
+        .map(|folding_range| encode_columns(folding_range, document_source.line_index()))
+        .collect_vec();
 
     if !folding_ranges.is_empty() {
         Ok(Some(folding_ranges))
@@ -30,6 +34,26 @@ pub async fn handle_folding_range(
     }
 }
 
+/// Convert the columns of the folding range to the encoding negotiated with the client.
+fn encode_columns(
+    folding_range: FoldingRange,
+    line_index: &tombi_text::LineIndex,
+) -> FoldingRange {
+    let encode = |line: u32, column: Option<u32>| {
+        column.map(|column| {
+            let position: tower_lsp::lsp_types::Position =
+                tombi_text::Position::new(line, column).into_lsp(line_index);
+            position.character
+        })
+    };
+
+    FoldingRange {
+        start_character: encode(folding_range.start_line, folding_range.start_character),
+        end_character: encode(folding_range.end_line, folding_range.end_character),
+        ..folding_range
+    }
+}
+
 fn create_folding_ranges(root: &tombi_ast::Root) -> Vec<FoldingRange> {
     let mut ranges: Vec<FoldingRange> = vec![];
 
-- 
2.43.0


From f8956c8adb710bdd1c60957164032df251ffeaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 30/67] fix: extend the range of an array of tables by its sub
 tables

---
 crates/tombi-document-tree/src/value/array.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-document-tree/src/value/array.rs b/crates/tombi-document-tree/src/value/array.rs
index 58976af..ca7ffe8 100644
--- a/crates/tombi-document-tree/src/value/array.rs
+++ b/crates/tombi-document-tree/src/value/array.rs
@@ -139,8 +139,12 @@ impl Array {
                     unreachable!("Parent of array of tables must have one table.")
                 };
                 if let Some(Value::Table(table1)) = self.values.last_mut() {
-                    if let Err(errs) = table1.merge(table2) {
-                        errors.extend(errs);
+                    match table1.merge(table2) {
+                        Ok(()) => {
+                            self.range += other.range;
+                            self.symbol_range += other.symbol_range;
+                        }
+                        Err(errs) => errors.extend(errs),
                     }
                 } else {
                     self.push(Value::Table(table2));
-- 
2.43.0


From 519e7fbe8279872f6b275626b7f3c5971450dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:26 +0000
Subject: [PATCH 31/67] fix: do not repeat the last comment of an unclosed
 array in semantic tokens

---
 crates/tombi-lsp/src/semantic_tokens/value.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/semantic_tokens/value.rs b/crates/tombi-lsp/src/semantic_tokens/value.rs
index 9ff9010..b00c8c2 100644
--- a/crates/tombi-lsp/src/semantic_tokens/value.rs
+++ b/crates/tombi-lsp/src/semantic_tokens/value.rs
@@ -51,7 +51,14 @@ impl AppendSemanticTokens for tombi_ast::Value {
             Self::InlineTable(inline_table) => inline_table.append_semantic_tokens(builder),
         }
 
-        if let Some(comment) = self.trailing_comment() {
+        // The last comment of an unclosed array or inline table is inside of it.
+        let is_unclosed = match self {
+            Self::Array(array) => array.bracket_end().is_none(),
+            Self::InlineTable(inline_table) => inline_table.brace_end().is_none(),
+            _ => false,
+        };
+
+        if !is_unclosed && let Some(comment) = self.trailing_comment() {
             comment.append_semantic_tokens(builder);
         }
     }
-- 
2.43.0


From e1ad6df2fd9d693086faccd3f86f1a94e3ebac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 32/67] fix: quote keys that need it when converting dotted
 keys to an inline table

---
 crates/tombi-lsp/src/code_action.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-lsp/src/code_action.rs b/crates/tombi-lsp/src/code_action.rs
index bde91f3..5d4426c 100644
--- a/crates/tombi-lsp/src/code_action.rs
+++ b/crates/tombi-lsp/src/code_action.rs
@@ -73,8 +73,8 @@ pub fn dot_keys_to_inline_table_code_action(
                                 .into_lsp(line_index),
                                 new_text: format!(
                                     "{} = {{ {}{}",
-                                    parent_key,
-                                    key.value,
+                                    tombi_toml_text::to_key_string(parent_key),
+                                    tombi_toml_text::to_key_string(&key.value),
                                     if table.kind() == TableKind::KeyValue {
                                         " = "
                                     } else {
-- 
2.43.0


From 9d931eaa4bd3bab5de3c6624ba4cffba7db77e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:31 +0000
Subject: [PATCH 33/67] fix: do not convert tables that are written with
 several dotted keys

---
 crates/tombi-lsp/src/code_action.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-lsp/src/code_action.rs b/crates/tombi-lsp/src/code_action.rs
index 5d4426c..3ded1cc 100644
--- a/crates/tombi-lsp/src/code_action.rs
+++ b/crates/tombi-lsp/src/code_action.rs
@@ -45,7 +45,7 @@ pub fn dot_keys_to_inline_table_code_action(
 
     match (accessor, value) {
         (Accessor::Key(parent_key), tombi_document_tree::Value::Table(table))
-            if table.len() == 1
+            if is_single_key_value(table)
                 && matches!(
                     parent_key_context.kind,
                     AccessorKeyKind::Dotted | AccessorKeyKind::KeyValue
@@ -118,7 +118,7 @@ pub fn inline_table_to_dot_keys_code_action(
 
     match value {
         tombi_document_tree::Value::Table(table)
-            if table.len() == 1
+            if is_single_key_value(table)
                 && matches!(table.kind(), TableKind::InlineTable { has_comment: false }) =>
         {
             let node = get_ast_inline_table_node(root, table)?;
@@ -165,6 +165,19 @@ pub fn inline_table_to_dot_keys_code_action(
     }
 }
 
+/// Whether the table is written with one key-value, so that no part of it is elsewhere.
+fn is_single_key_value(table: &tombi_document_tree::Table) -> bool {
+    table.len() == 1
+        && table.values().all(|value| match value {
+            tombi_document_tree::Value::Table(table)
+                if matches!(table.kind(), TableKind::ParentKey | TableKind::KeyValue) =>
+            {
+                is_single_key_value(table)
+            }
+            _ => true,
+        })
+}
+
 fn get_ast_inline_table_node(
     root: &tombi_ast::Root,
     table: &tombi_document_tree::Table,
-- 
2.43.0


From 19fe88089e4e81941c50ba4aefafb53f7b1166f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 34/67] fix: find no token at a position outside of the
 document

---
 crates/tombi-rg-tree/src/cursor.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/tombi-rg-tree/src/cursor.rs b/crates/tombi-rg-tree/src/cursor.rs
index 8545f7f..20067bd 100644
--- a/crates/tombi-rg-tree/src/cursor.rs
+++ b/crates/tombi-rg-tree/src/cursor.rs
@@ -938,11 +938,7 @@ impl SyntaxNode {
 
     pub fn token_at_position(&self, position: tombi_text::Position) -> TokenAtOffset<SyntaxToken> {
         let range = self.range();
-        debug_assert!(
-            range.start <= position && position <= range.end,
-            "Bad position: range {range:?} position {position:?}"
-        );
-        if range.is_empty() {
+        if range.is_empty() || position < range.start || range.end < position {
             return TokenAtOffset::None;
         }
 
-- 
2.43.0


From 18e6e54681796eb925054840db1fe3fe5a044fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:09 +0000
Subject: [PATCH 35/67] fix: give unclosed arrays and inline tables a token
 range

---
 crates/tombi-ast/src/impls/value.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/tombi-ast/src/impls/value.rs b/crates/tombi-ast/src/impls/value.rs
index 635e812..c8a1d72 100644
--- a/crates/tombi-ast/src/impls/value.rs
+++ b/crates/tombi-ast/src/impls/value.rs
@@ -36,12 +36,22 @@ impl crate::Value {
             Self::LocalDateTime(datetime) => datetime.token().unwrap().range(),
             Self::LocalDate(date) => date.token().unwrap().range(),
             Self::LocalTime(time) => time.token().unwrap().range(),
-            Self::Array(array) => {
-                array.bracket_start().unwrap().range() + array.bracket_end().unwrap().range()
-            }
-            Self::InlineTable(table) => {
-                table.brace_start().unwrap().range() + table.brace_end().unwrap().range()
-            }
+            Self::Array(array) => tombi_text::Range::new(
+                array
+                    .bracket_start()
+                    .map_or_else(|| array.range().start, |bracket| bracket.range().start),
+                array
+                    .bracket_end()
+                    .map_or_else(|| array.range().end, |bracket| bracket.range().end),
+            ),
+            Self::InlineTable(table) => tombi_text::Range::new(
+                table
+                    .brace_start()
+                    .map_or_else(|| table.range().start, |brace| brace.range().start),
+                table
+                    .brace_end()
+                    .map_or_else(|| table.range().end, |brace| brace.range().end),
+            ),
         }
     }
 }
-- 
2.43.0


From 05dba0d3d13c79e24aa06c4692f9528c9348d32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:36 +0000
Subject: [PATCH 36/67] hook: an HTTP client for verification builds (cfg
 tombi_verify)

---
 crates/tombi-schema-store/src/lib.rs    |  5 +++++
 crates/tombi-schema-store/src/store.rs  |  4 ++++
 crates/tombi-schema-store/src/verify.rs | 14 ++++++++++++++
 3 files changed, 23 insertions(+)
 create mode 100644 crates/tombi-schema-store/src/verify.rs

diff --git a/crates/tombi-schema-store/src/lib.rs b/crates/tombi-schema-store/src/lib.rs
index b92b90c..79e621e 100644
--- a/crates/tombi-schema-store/src/lib.rs
+++ b/crates/tombi-schema-store/src/lib.rs
@@ -1,3 +1,6 @@
+// `tombi_verify` guards the verification hook.
+#![allow(unexpected_cfgs)]
+
 mod error;
 mod http_client;
 pub mod json;
@@ -8,6 +11,8 @@ mod options;
 mod schema;
 mod store;
 mod value_type;
+#[cfg(tombi_verify)]
+pub mod verify;
 mod x_taplo;
 
 pub use error::{Error, SCHEMA_RESOLUTION_DIAGNOSTIC_CODE};
diff --git a/crates/tombi-schema-store/src/store.rs b/crates/tombi-schema-store/src/store.rs
index 4f78d14..7639204 100644
--- a/crates/tombi-schema-store/src/store.rs
+++ b/crates/tombi-schema-store/src/store.rs
@@ -73,6 +73,10 @@ impl SchemaStore {
     /// Create a store with the given options.
     /// Note that the new_with_options() does not automatically load schemas from Config etc.
     pub fn new_with_options(options: crate::Options) -> Self {
+        #[cfg(tombi_verify)]
+        if let Some(http_client) = crate::verify::http_client() {
+            return Self::new_with_options_and_http_client(options, http_client);
+        }
         Self::new_with_options_and_http_client(options, Arc::new(DefaultHttpClient::new()))
     }
 
diff --git a/crates/tombi-schema-store/src/verify.rs b/crates/tombi-schema-store/src/verify.rs
new file mode 100644
index 0000000..211f6a4
--- /dev/null
+++ b/crates/tombi-schema-store/src/verify.rs
@@ -0,0 +1,14 @@
+//! Verification hook (`--cfg tombi_verify`): an HTTP client for the stores that are created without one.
+use std::sync::{Arc, Mutex};
+
+use crate::HttpClient;
+
+static HTTP_CLIENT: Mutex<Option<Arc<dyn HttpClient>>> = Mutex::new(None);
+
+pub fn set_http_client(http_client: Option<Arc<dyn HttpClient>>) {
+    *HTTP_CLIENT.lock().unwrap() = http_client;
+}
+
+pub(crate) fn http_client() -> Option<Arc<dyn HttpClient>> {
+    HTTP_CLIENT.lock().unwrap().clone()
+}
-- 
2.43.0


From e39bf7f87a52f4e52e01625a3232e80833ac1bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 37/67] fix: do not offer keys of allOf schemas that the table
 has already

---
 crates/tombi-lsp/src/completion/value/table.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/completion/value/table.rs b/crates/tombi-lsp/src/completion/value/table.rs
index 0544b5f..38a0880 100644
--- a/crates/tombi-lsp/src/completion/value/table.rs
+++ b/crates/tombi-lsp/src/completion/value/table.rs
@@ -786,7 +786,18 @@ impl FindCompletionContents for tombi_document_tree::Table {
                                 )
                                 .await
                                 .into_iter()
-                                .filter(|item| item.label != "{}")
+                                .filter(|item| {
+                                    item.label != "{}"
+                                        && !self.key_values().iter().any(|(key, value)| {
+                                            item.label.strip_prefix(key.value.as_str()).is_some_and(
+                                                |rest| rest.is_empty() || rest.starts_with(" = "),
+                                            ) && check_used_table_value(
+                                                value,
+                                                accessors.is_empty(),
+                                                completion_hint,
+                                            )
+                                        })
+                                })
                                 .collect_vec();
                                 completion_contents.extend(projected_items);
                             }
-- 
2.43.0


From 394cc663975e5218055fcee881a724f6148e5602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 38/67] fix: hover over a value whose schema is a reference to
 a schema without constraints

---
 crates/tombi-lsp/src/hover/value.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-lsp/src/hover/value.rs b/crates/tombi-lsp/src/hover/value.rs
index 5feb45f..8410c83 100644
--- a/crates/tombi-lsp/src/hover/value.rs
+++ b/crates/tombi-lsp/src/hover/value.rs
@@ -68,10 +68,11 @@ impl GetHoverContent for tombi_document_tree::Value {
                 Some(schema)
                     if schema.semantic_schema.is_some()
                         && instance_type.is_some()
-                        && !schema
-                            .semantic_schema
-                            .as_deref()
-                            .is_some_and(|semantic| semantic.has_applicators()) =>
+                        && (matches!(schema.schema_view.as_ref(), SchemaView::Anything(_))
+                            || !schema
+                                .semantic_schema
+                                .as_deref()
+                                .is_some_and(|semantic| semantic.has_applicators())) =>
                 {
                     projected_schema.as_ref()
                 }
-- 
2.43.0


From dd53e033dceaa05b2912249efa55ea98a3cf8db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:24 +0000
Subject: [PATCH 39/67] fix: schema order below keys that have to be quoted

---
 crates/tombi-ast-editor/src/rule/table_keys_order.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index 104b541..dc07308 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -238,7 +238,7 @@ where
                 };
 
                 for (accessor, targets) in sorted_targets {
-                    if let Some(value) = table.get(&accessor.to_string())
+                    if let Some(value) = accessor.as_key().and_then(|key| table.get(key))
                         && let (Some(current_schema), Some(table_schema)) =
                             (current_schema, table_schema)
                     {
-- 
2.43.0


From 2985ac3ccdeb9d9d63a8f88a52dc3c2e259308e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 40/67] fix: schema order of dotted keys and tables below
 patternProperties

---
 .../src/rule/table_keys_order.rs              | 51 +++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index dc07308..561d75a 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -271,6 +271,57 @@ where
                             );
                             continue;
                         }
+                        if let (Some(key), Some(pattern_properties)) =
+                            (accessor.as_key(), &table_schema.pattern_properties)
+                        {
+                            let pattern_keys = pattern_properties
+                                .read()
+                                .await
+                                .keys()
+                                .cloned()
+                                .collect_vec();
+                            let mut pattern_schema = None;
+                            for pattern_key in pattern_keys {
+                                let Ok(pattern) = tombi_regex::Regex::new(&pattern_key) else {
+                                    log::warn!("invalid regex pattern property: {}", pattern_key);
+                                    continue;
+                                };
+                                if pattern.is_match(key)
+                                    && let Ok(Some(current_schema)) = table_schema
+                                        .resolve_pattern_property_schema(
+                                            &pattern_key,
+                                            current_schema.schema_uri.clone(),
+                                            current_schema.definitions.clone(),
+                                            current_schema.strict,
+                                            schema_context.store,
+                                        )
+                                        .await
+                                        .inspect_err(|err| log::warn!("{err}"))
+                                {
+                                    pattern_schema = Some(current_schema);
+                                    break;
+                                }
+                            }
+                            if let Some(current_schema) = pattern_schema {
+                                results.extend(
+                                    get_sorted_accessors(
+                                        value,
+                                        &accessors
+                                            .iter()
+                                            .cloned()
+                                            .chain(std::iter::once(accessor))
+                                            .collect_vec(),
+                                        targets,
+                                        Some(&current_schema),
+                                        schema_context,
+                                        order,
+                                        table_order_overrides,
+                                    )
+                                    .await?,
+                                );
+                                continue;
+                            }
+                        }
                         if let Some((_, referable_schema)) =
                             &table_schema.additional_property_schema
                             && let Ok(Some(current_schema)) =
-- 
2.43.0


From 53569136b491507adc8dd435ea21fb8ca7c6fa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:48 +0000
Subject: [PATCH 41/67] fix: descending array order keeps the order of equal
 values

---
 .../src/rule/array_values_order.rs                | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 0a01378..4d74644 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -296,6 +296,8 @@ fn sort_array_values(
             .map(|(value, comma)| (value, Some(comma)))
             .collect_vec(),
         ArrayValuesOrder::Descending => sortable_values
+            // reversed twice: values that compare equal keep their order
+            .reversed()
             .sorted()
             .into_iter()
             .rev()
@@ -634,6 +636,19 @@ impl SortableValues {
         Ok(sortable_values)
     }
 
+    fn reversed(mut self) -> Self {
+        match &mut self {
+            Self::Boolean(sortable_values) => sortable_values.reverse(),
+            Self::Integer(sortable_values) => sortable_values.reverse(),
+            Self::String(sortable_values) => sortable_values.reverse(),
+            Self::OffsetDateTime(sortable_values) => sortable_values.reverse(),
+            Self::LocalDateTime(sortable_values) => sortable_values.reverse(),
+            Self::LocalDate(sortable_values) => sortable_values.reverse(),
+            Self::LocalTime(sortable_values) => sortable_values.reverse(),
+        }
+        self
+    }
+
     pub fn sorted(self) -> Vec<(tombi_ast::Value, tombi_ast::Comma)> {
         match self {
             Self::Boolean(mut sortable_values) => {
-- 
2.43.0


From 4b5fb5b7209becc965d0b14f872f99c9a5e032b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 42/67] fix: offset date-times in sorted arrays are ordered as
 points in time

---
 .../src/rule/array_values_order.rs            |  4 ++--
 .../array_values_order/offset_date_time.rs    |  4 ++--
 .../tombi-date-time/src/offset_date_time.rs   | 20 +++++++++++++++++++
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 4d74644..165c55d 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -381,7 +381,7 @@ enum SortableValues {
     Boolean(Vec<(bool, tombi_ast::Value, tombi_ast::Comma)>),
     Integer(Vec<(i64, tombi_ast::Value, tombi_ast::Comma)>),
     String(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
-    OffsetDateTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
+    OffsetDateTime(Vec<((i64, u32), tombi_ast::Value, tombi_ast::Comma)>),
     LocalDateTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
     LocalDate(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
     LocalTime(Vec<(String, tombi_ast::Value, tombi_ast::Comma)>),
@@ -676,7 +676,7 @@ impl SortableValues {
                     .collect_vec()
             }
             Self::OffsetDateTime(mut sortable_values) => {
-                sortable_values.sort_by_key(|(key, _, _)| key.clone());
+                sortable_values.sort_by_key(|(key, _, _)| *key);
 
                 sortable_values
                     .into_iter()
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
index be0be53..ee55020 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order/offset_date_time.rs
@@ -25,7 +25,7 @@ pub async fn create_offset_date_time_sortable_values<'a>(
             (
                 tombi_ast::Value::OffsetDateTime(_),
                 tombi_document_tree::Value::OffsetDateTime(offset_date_time_node),
-            ) => sortable_values.push((offset_date_time_node.to_string(), value, comma)),
+            ) => sortable_values.push((offset_date_time_node.value().instant(), value, comma)),
             (
                 tombi_ast::Value::InlineTable(inline_table),
                 tombi_document_tree::Value::Table(table_node),
@@ -62,7 +62,7 @@ pub async fn create_offset_date_time_sortable_values<'a>(
                                 )) = table_node.get(&key_text)
                             {
                                 sortable_values.push((
-                                    offset_date_time_node.to_string(),
+                                    offset_date_time_node.value().instant(),
                                     value,
                                     comma,
                                 ));
diff --git a/crates/tombi-date-time/src/offset_date_time.rs b/crates/tombi-date-time/src/offset_date_time.rs
index 1c17ecf..73b6911 100644
--- a/crates/tombi-date-time/src/offset_date_time.rs
+++ b/crates/tombi-date-time/src/offset_date_time.rs
@@ -76,6 +76,26 @@ impl OffsetDateTime {
     pub fn offset(&self) -> crate::TimeZoneOffset {
         self.offset
     }
+
+    /// Seconds since 0000-03-01T00:00:00Z and nanoseconds, to order date-times of different offsets.
+    pub fn instant(&self) -> (i64, u32) {
+        let (year, month) = match (self.year() as i64, self.month() as i64) {
+            (year, month) if month > 2 => (year, month - 3),
+            (year, month) => (year - 1, month + 9),
+        };
+        let days = 365 * year + year.div_euclid(4) - year.div_euclid(100)
+            + year.div_euclid(400)
+            + (153 * month + 2) / 5
+            + self.day() as i64
+            - 1;
+        let offset_minutes = match self.offset {
+            crate::TimeZoneOffset::Z => 0,
+            crate::TimeZoneOffset::Custom { minutes } => minutes as i64,
+        };
+        let minutes = (days * 24 + self.hour() as i64) * 60 + self.minute() as i64 - offset_minutes;
+
+        (minutes * 60 + self.second() as i64, self.nanosecond())
+    }
 }
 
 impl std::str::FromStr for OffsetDateTime {
-- 
2.43.0


From d71fb1d81784695211e1d5348a52af9d88b5524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:02 +0000
Subject: [PATCH 43/67] fix: keep the comment between a value and its comma
 when the value is sorted to the end

---
 crates/tombi-ast-editor/src/rule/array_values_order.rs      | 3 ++-
 crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index 165c55d..abcaa22 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -128,8 +128,9 @@ pub async fn array_values_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_values_with_comma.last_mut()
+    if let Some((value, comma)) = sorted_values_with_comma.last_mut()
         && !is_last_comma
+        && value.trailing_comment().is_none()
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 0dee382..25fd7b4 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -69,8 +69,9 @@ pub async fn inline_table_keys_order<'a>(
         return Vec::new();
     };
 
-    if let Some((_, comma)) = sorted_key_values_with_comma.last_mut()
+    if let Some((key_value, comma)) = sorted_key_values_with_comma.last_mut()
         && !is_last_comma
+        && key_value.trailing_comment().is_none()
         && let Some(new_last_comma) = comma
         && new_last_comma.trailing_comment().is_none()
         && new_last_comma.leading_comments().next().is_none()
-- 
2.43.0


From 8ef4ddd18842584b2e96c7f8afd6b839e2c3c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:56 +0000
Subject: [PATCH 44/67] fix: validate the whole document when a schema of oneOf
 or anyOf is chosen for the root order

---
 crates/tombi-ast-editor/src/edit/root.rs       |  1 +
 .../src/rule/root_table_keys_order.rs          | 18 +++---------------
 2 files changed, 4 insertions(+), 15 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit/root.rs b/crates/tombi-ast-editor/src/edit/root.rs
index af99005..901708c 100644
--- a/crates/tombi-ast-editor/src/edit/root.rs
+++ b/crates/tombi-ast-editor/src/edit/root.rs
@@ -154,6 +154,7 @@ impl crate::Edit for tombi_ast::Root {
 
             changes.extend(
                 root_table_keys_order(
+                    node,
                     key_value_groups,
                     table_or_array_of_tables,
                     current_schema,
diff --git a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
index f442f80..c33e18b 100644
--- a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
@@ -3,7 +3,6 @@ use tombi_ast::{AstNode, GetHeaderAccessors};
 use tombi_comment_directive::value::{
     TableCommonFormatRules, TableCommonLintRules, TombiValueDirectiveContent,
 };
-use tombi_document_tree::IntoDocumentTreeAndErrors;
 use tombi_schema_store::{CurrentSchema, SchemaContext};
 use tombi_syntax::SyntaxElement;
 
@@ -11,6 +10,7 @@ use crate::rule::TableOrderOverrides;
 use crate::rule::table_keys_order::{get_sorted_accessors, table_keys_order};
 
 pub async fn root_table_keys_order<'a>(
+    node: &'a tombi_document_tree::Value,
     key_value_groups: Vec<tombi_ast::KeyValueGroup>,
     table_or_array_of_tables: Vec<tombi_ast::TableOrArrayOfTable>,
     current_schema: Option<&'a CurrentSchema<'a>>,
@@ -44,14 +44,7 @@ pub async fn root_table_keys_order<'a>(
 
         changes.extend(
             table_keys_order(
-                &tombi_document_tree::Value::Table(
-                    key_values_with_comma
-                        .iter()
-                        .map(|(kv, _)| kv.clone())
-                        .collect_vec()
-                        .into_document_tree_and_errors(schema_context.toml_version)
-                        .tree,
-                ),
+                node,
                 &[],
                 key_values_with_comma,
                 current_schema,
@@ -82,12 +75,7 @@ pub async fn root_table_keys_order<'a>(
     );
 
     let Some(sorted_table) = get_sorted_accessors(
-        &tombi_document_tree::Value::Table(
-            table_or_array_of_tables
-                .clone()
-                .into_document_tree_and_errors(schema_context.toml_version)
-                .tree,
-        ),
+        node,
         &[],
         table_or_array_of_tables
             .into_iter()
-- 
2.43.0


From dadd5e5d612167b9b97e7c17c3ffe5afccd7f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 45/67] fix: tables-out-of-order compares keys, not their
 spelling

---
 .../src/rule/tables_out_of_order.rs           | 37 ++++++-------------
 1 file changed, 12 insertions(+), 25 deletions(-)

diff --git a/crates/tombi-linter/src/rule/tables_out_of_order.rs b/crates/tombi-linter/src/rule/tables_out_of_order.rs
index 8d260d1..d4a36dc 100644
--- a/crates/tombi-linter/src/rule/tables_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/tables_out_of_order.rs
@@ -45,15 +45,15 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
             return;
         }
 
-        let source_text = l.source_text();
-        let mut table_positions: Vec<(usize, Vec<&str>, tombi_text::Range)> = Vec::new();
+        let toml_version = l.toml_version();
+        let mut table_positions: Vec<(usize, Vec<String>, tombi_text::Range)> = Vec::new();
 
         // Collect all table definitions
         for (position, item) in node.items().enumerate() {
             match item {
                 tombi_ast::RootItem::Table(table) => {
                     if let Some(header) = table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((position, key_parts, table.syntax().range()));
                         }
@@ -61,7 +61,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
                 }
                 tombi_ast::RootItem::ArrayOfTable(array_table) => {
                     if let Some(header) = array_table.header() {
-                        let key_parts = extract_key_parts(&header, source_text);
+                        let key_parts = extract_key_parts(&header, toml_version);
                         if !key_parts.is_empty() {
                             table_positions.push((
                                 position,
@@ -79,12 +79,12 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
         let mut out_of_order_ranges = Vec::new();
 
         // Group tables by their first key component (prefix)
-        let mut prefix_groups: tombi_hashmap::HashMap<&str, Vec<(usize, tombi_text::Range)>> =
+        let mut prefix_groups: tombi_hashmap::HashMap<&String, Vec<(usize, tombi_text::Range)>> =
             tombi_hashmap::HashMap::new();
         for (pos, keys, range) in &table_positions {
             if !keys.is_empty() {
                 prefix_groups
-                    .entry(keys[0])
+                    .entry(&keys[0])
                     .or_default()
                     .push((*pos, *range));
             }
@@ -98,7 +98,7 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
 
                 // Check if there are any tables with different prefixes between min and max
                 let has_interrupting_tables = table_positions.iter().any(|(pos, keys, _)| {
-                    *pos > min_pos && *pos < max_pos && !keys.is_empty() && keys[0] != *prefix
+                    *pos > min_pos && *pos < max_pos && !keys.is_empty() && keys[0] != **prefix
                 });
 
                 // If there are interrupting tables, mark all tables in this group as out of order
@@ -121,25 +121,12 @@ impl Rule<tombi_ast::Root> for TablesOutOfOrderRule {
     }
 }
 
-fn extract_key_parts<'a>(keys: &tombi_ast::Keys, source_text: &'a str) -> Vec<&'a str> {
+fn extract_key_parts(
+    keys: &tombi_ast::Keys,
+    toml_version: tombi_config::TomlVersion,
+) -> Vec<String> {
     keys.keys()
-        .map(|key| match key {
-            tombi_ast::Key::BareKey(k) => &source_text[k.syntax().span()],
-            tombi_ast::Key::BasicString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-            tombi_ast::Key::LiteralString(k) => {
-                let mut span = k.syntax().span();
-                // Remove quotes
-                span.start += 1;
-                span.end -= 1;
-                &source_text[span]
-            }
-        })
+        .filter_map(|key| key.try_to_raw_text(toml_version).ok())
         .collect()
 }
 
-- 
2.43.0


From 3cb9520612e65181492a8e7d6b971d9c390d080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:31 +0000
Subject: [PATCH 46/67] fix: directives of a key apply to
 dotted-keys-out-of-order in its inline table

---
 .../src/rule/dotted_keys_out_of_order.rs           | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
index 2a357a5..2607d4b 100644
--- a/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
+++ b/crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs
@@ -1,4 +1,6 @@
 use crate::Rule;
+use itertools::Itertools;
+use tombi_ast::AstNode;
 use tombi_comment_directive::value::{TableCommonFormatRules, TableCommonLintRules};
 use tombi_comment_directive_serde::get_comment_directive_content;
 use tombi_config::SeverityLevel;
@@ -26,7 +28,17 @@ impl Rule<tombi_ast::ArrayOfTable> for DottedKeysOutOfOrderRule {
 
 impl Rule<tombi_ast::InlineTable> for DottedKeysOutOfOrderRule {
     async fn check(table: &tombi_ast::InlineTable, l: &mut crate::Linter<'_>) {
-        check_dotted_keys_out_of_order(table.key_values(), table.comment_directives(), l).await;
+        let comment_directives = table
+            .syntax()
+            .parent()
+            .and_then(tombi_ast::KeyValue::cast)
+            .map(|key_value| key_value.comment_directives().collect_vec())
+            .unwrap_or_default()
+            .into_iter()
+            .chain(table.comment_directives())
+            .collect_vec();
+
+        check_dotted_keys_out_of_order(table.key_values(), comment_directives.into_iter(), l).await;
     }
 }
 
-- 
2.43.0


From 89a90328c43ebb2d626bb6681d36f61ab5c72780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:58 +0000
Subject: [PATCH 47/67] fix: rules of an override take precedence over the base
 configuration

---
 crates/tombi-config/src/format.rs | 64 +++++++++++++++----------------
 crates/tombi-config/src/lint.rs   | 10 ++---
 2 files changed, 37 insertions(+), 37 deletions(-)

diff --git a/crates/tombi-config/src/format.rs b/crates/tombi-config/src/format.rs
index e054e26..d1def14 100644
--- a/crates/tombi-config/src/format.rs
+++ b/crates/tombi-config/src/format.rs
@@ -305,50 +305,50 @@ pub struct FormatRules {
 impl FormatRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            array_bracket_space_width: self
+            array_bracket_space_width: override_rules
                 .array_bracket_space_width
-                .or(override_rules.array_bracket_space_width),
-            array_comma_space_width: self
+                .or(self.array_bracket_space_width),
+            array_comma_space_width: override_rules
                 .array_comma_space_width
-                .or(override_rules.array_comma_space_width),
-            comment_style: self.comment_style.or(override_rules.comment_style),
-            date_time_delimiter: self
+                .or(self.array_comma_space_width),
+            comment_style: override_rules.comment_style.or(self.comment_style),
+            date_time_delimiter: override_rules
                 .date_time_delimiter
-                .or(override_rules.date_time_delimiter),
-            group_blank_lines_limit: self
+                .or(self.date_time_delimiter),
+            group_blank_lines_limit: override_rules
                 .group_blank_lines_limit
-                .or(override_rules.group_blank_lines_limit),
-            indent_style: self.indent_style.or(override_rules.indent_style),
-            indent_sub_tables: self.indent_sub_tables.or(override_rules.indent_sub_tables),
-            indent_table_key_value_pairs: self
+                .or(self.group_blank_lines_limit),
+            indent_style: override_rules.indent_style.or(self.indent_style),
+            indent_sub_tables: override_rules.indent_sub_tables.or(self.indent_sub_tables),
+            indent_table_key_value_pairs: override_rules
                 .indent_table_key_value_pairs
-                .or(override_rules.indent_table_key_value_pairs),
-            indent_width: self.indent_width.or(override_rules.indent_width),
-            inline_table_brace_space_width: self
+                .or(self.indent_table_key_value_pairs),
+            indent_width: override_rules.indent_width.or(self.indent_width),
+            inline_table_brace_space_width: override_rules
                 .inline_table_brace_space_width
-                .or(override_rules.inline_table_brace_space_width),
-            inline_table_comma_space_width: self
+                .or(self.inline_table_brace_space_width),
+            inline_table_comma_space_width: override_rules
                 .inline_table_comma_space_width
-                .or(override_rules.inline_table_comma_space_width),
-            key_value_equals_sign_alignment: self
+                .or(self.inline_table_comma_space_width),
+            key_value_equals_sign_alignment: override_rules
                 .key_value_equals_sign_alignment
-                .or(override_rules.key_value_equals_sign_alignment),
-            key_quote_style: self.key_quote_style.or(override_rules.key_quote_style),
-            string_quote_style: self
+                .or(self.key_value_equals_sign_alignment),
+            key_quote_style: override_rules.key_quote_style.or(self.key_quote_style),
+            string_quote_style: override_rules
                 .string_quote_style
-                .or(override_rules.string_quote_style),
-            trailing_comment_alignment: self
+                .or(self.string_quote_style),
+            trailing_comment_alignment: override_rules
                 .trailing_comment_alignment
-                .or(override_rules.trailing_comment_alignment),
-            key_value_equals_sign_space_width: self
+                .or(self.trailing_comment_alignment),
+            key_value_equals_sign_space_width: override_rules
                 .key_value_equals_sign_space_width
-                .or(override_rules.key_value_equals_sign_space_width),
-            line_ending: self.line_ending.or(override_rules.line_ending),
-            line_width: self.line_width.or(override_rules.line_width),
-            table_blank_lines: self.table_blank_lines.or(override_rules.table_blank_lines),
-            trailing_comment_space_width: self
+                .or(self.key_value_equals_sign_space_width),
+            line_ending: override_rules.line_ending.or(self.line_ending),
+            line_width: override_rules.line_width.or(self.line_width),
+            table_blank_lines: override_rules.table_blank_lines.or(self.table_blank_lines),
+            trailing_comment_space_width: override_rules
                 .trailing_comment_space_width
-                .or(override_rules.trailing_comment_space_width),
+                .or(self.trailing_comment_space_width),
         }
     }
 }
diff --git a/crates/tombi-config/src/lint.rs b/crates/tombi-config/src/lint.rs
index 447d22c..9708852 100644
--- a/crates/tombi-config/src/lint.rs
+++ b/crates/tombi-config/src/lint.rs
@@ -75,13 +75,13 @@ pub struct LintRules {
 impl LintRules {
     pub fn merge(self, override_rules: &Self) -> Self {
         Self {
-            key_empty: self.key_empty.or(override_rules.key_empty),
-            dotted_keys_out_of_order: self
+            key_empty: override_rules.key_empty.or(self.key_empty),
+            dotted_keys_out_of_order: override_rules
                 .dotted_keys_out_of_order
-                .or(override_rules.dotted_keys_out_of_order),
-            tables_out_of_order: self
+                .or(self.dotted_keys_out_of_order),
+            tables_out_of_order: override_rules
                 .tables_out_of_order
-                .or(override_rules.tables_out_of_order),
+                .or(self.tables_out_of_order),
         }
     }
 }
-- 
2.43.0


From e9dfde4e6c231606accda3c75606556813002826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:36 +0000
Subject: [PATCH 48/67] fix: sub-schemas that refer to other schema files
 overflowed the stack

---
 crates/tombi-ast-editor/src/edit.rs           |  2 +-
 crates/tombi-ast-editor/src/edit/array.rs     |  2 +-
 crates/tombi-lsp/src/completion/value.rs      |  2 +-
 .../tombi-lsp/src/completion/value/array.rs   |  4 ++--
 .../tombi-lsp/src/completion/value/table.rs   |  2 +-
 .../src/goto_type_definition/value.rs         |  2 +-
 .../src/goto_type_definition/value/array.rs   |  2 +-
 .../src/goto_type_definition/value/table.rs   |  2 +-
 crates/tombi-lsp/src/hover/value.rs           |  2 +-
 crates/tombi-lsp/src/hover/value/array.rs     |  2 +-
 crates/tombi-lsp/src/hover/value/table.rs     |  2 +-
 .../src/schema/schema_context.rs              | 21 +++++++++++++++++--
 .../src/schema/schema_cycle_guard.rs          |  8 +++++++
 crates/tombi-validator/src/validate/array.rs  |  2 +-
 crates/tombi-validator/src/validate/table.rs  |  2 +-
 crates/tombi-validator/src/validate/value.rs  |  2 +-
 16 files changed, 42 insertions(+), 17 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit.rs b/crates/tombi-ast-editor/src/edit.rs
index 9cb9bf9..ad0f388 100644
--- a/crates/tombi-ast-editor/src/edit.rs
+++ b/crates/tombi-ast-editor/src/edit.rs
@@ -41,7 +41,7 @@ fn edit_recursive<'a: 'b, 'b>(
     schema_context: &'a tombi_schema_store::SchemaContext<'a>,
 ) -> BoxFuture<'b, Vec<crate::Change>> {
     async move {
-        if let Some(Ok(current_schema)) = schema_context
+        if let Some(Ok((current_schema, _cycle_guard))) = schema_context
             .get_subschema(accessors.as_ref(), current_schema.as_ref())
             .await
         {
diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index 2bdaf51..be7d7d4 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -134,7 +134,7 @@ fn resolve_array_item_edit_context<'a: 'b, 'b>(
     schema_context: &'a tombi_schema_store::SchemaContext<'a>,
 ) -> BoxFuture<'b, Option<tombi_schema_store::CurrentSchema<'a>>> {
     async move {
-        if let Some(Ok(current_schema)) = schema_context
+        if let Some(Ok((current_schema, _cycle_guard))) = schema_context
             .get_subschema(accessors, current_schema.as_ref())
             .await
         {
diff --git a/crates/tombi-lsp/src/completion/value.rs b/crates/tombi-lsp/src/completion/value.rs
index 5ced03c..8fd7516 100644
--- a/crates/tombi-lsp/src/completion/value.rs
+++ b/crates/tombi-lsp/src/completion/value.rs
@@ -54,7 +54,7 @@ impl FindCompletionContents for tombi_document_tree::Value {
         log::trace!("completion_hint = {:?}", completion_hint);
 
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/completion/value/array.rs b/crates/tombi-lsp/src/completion/value/array.rs
index e986fbc..2816300 100644
--- a/crates/tombi-lsp/src/completion/value/array.rs
+++ b/crates/tombi-lsp/src/completion/value/array.rs
@@ -53,7 +53,7 @@ impl FindCompletionContents for tombi_document_tree::Array {
                 return completions;
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
@@ -419,7 +419,7 @@ impl FindCompletionContents for tombi_document_tree::Array {
                     .chain(std::iter::once(Accessor::Index(new_item_index)))
                     .collect_vec();
 
-                if let Some(Ok(current_schema)) = schema_context
+                if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                     .get_subschema(&new_item_accessors, None)
                     .await
                 {
diff --git a/crates/tombi-lsp/src/completion/value/table.rs b/crates/tombi-lsp/src/completion/value/table.rs
index 38a0880..c91a5f7 100644
--- a/crates/tombi-lsp/src/completion/value/table.rs
+++ b/crates/tombi-lsp/src/completion/value/table.rs
@@ -80,7 +80,7 @@ impl FindCompletionContents for tombi_document_tree::Table {
                 return Vec::new();
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/goto_type_definition/value.rs b/crates/tombi-lsp/src/goto_type_definition/value.rs
index d49a6d0..43ac0e0 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value.rs
@@ -22,7 +22,7 @@ impl GetTypeDefinition for tombi_document_tree::Value {
         schema_context: &'a tombi_schema_store::SchemaContext,
     ) -> tombi_future::BoxFuture<'b, Option<crate::goto_type_definition::TypeDefinition>> {
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/goto_type_definition/value/array.rs b/crates/tombi-lsp/src/goto_type_definition/value/array.rs
index 8ce523a..ffeb8fe 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/array.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/array.rs
@@ -40,7 +40,7 @@ impl GetTypeDefinition for tombi_document_tree::Array {
                 return Some(hover_content);
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/goto_type_definition/value/table.rs b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
index e05a283..cae459b 100644
--- a/crates/tombi-lsp/src/goto_type_definition/value/table.rs
+++ b/crates/tombi-lsp/src/goto_type_definition/value/table.rs
@@ -40,7 +40,7 @@ impl GetTypeDefinition for tombi_document_tree::Table {
                 return Some(hover_content);
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/hover/value.rs b/crates/tombi-lsp/src/hover/value.rs
index 8410c83..57ddffc 100644
--- a/crates/tombi-lsp/src/hover/value.rs
+++ b/crates/tombi-lsp/src/hover/value.rs
@@ -31,7 +31,7 @@ impl GetHoverContent for tombi_document_tree::Value {
         log::trace!("current_schema = {:?}", current_schema);
 
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/hover/value/array.rs b/crates/tombi-lsp/src/hover/value/array.rs
index d9f9f88..5236ecb 100644
--- a/crates/tombi-lsp/src/hover/value/array.rs
+++ b/crates/tombi-lsp/src/hover/value/array.rs
@@ -44,7 +44,7 @@ impl GetHoverContent for tombi_document_tree::Array {
                 return Some(hover_content);
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-lsp/src/hover/value/table.rs b/crates/tombi-lsp/src/hover/value/table.rs
index 26c24d7..7e5caba 100644
--- a/crates/tombi-lsp/src/hover/value/table.rs
+++ b/crates/tombi-lsp/src/hover/value/table.rs
@@ -46,7 +46,7 @@ impl GetHoverContent for tombi_document_tree::Table {
                 return Some(hover_content);
             }
 
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-schema-store/src/schema/schema_context.rs b/crates/tombi-schema-store/src/schema/schema_context.rs
index 4ae9efb..0f79575 100644
--- a/crates/tombi-schema-store/src/schema/schema_context.rs
+++ b/crates/tombi-schema-store/src/schema/schema_context.rs
@@ -339,11 +339,21 @@ impl SchemaContext<'_> {
         Some(schema_uri)
     }
 
+    /// The sub-schema for the accessors, unless `current_schema` comes from applying it: the branches
+    /// of a sub-schema may be other documents. Hold the guard while the sub-schema is in use.
     pub async fn get_subschema(
         &self,
         accessors: &[crate::Accessor],
         current_schema: Option<&crate::CurrentSchema<'_>>,
-    ) -> Option<Result<crate::CurrentSchema<'static>, crate::Error>> {
+    ) -> Option<
+        Result<
+            (
+                crate::CurrentSchema<'static>,
+                Option<crate::SchemaCycleGuard>,
+            ),
+            crate::Error,
+        >,
+    > {
         if let Some(sub_schema_link_map) = self.sub_schema_link_map
             && let Some((_, sub_schema_link)) = sub_schema_link_map
                 .iter()
@@ -360,6 +370,13 @@ impl SchemaContext<'_> {
                     || current_schema.strict != Some(sub_schema_link.strict.into())
             })
         {
+            let cycle_guard = self
+                .schema_visits
+                .get_sub_schema_cycle_guard(sub_schema_link);
+            if cycle_guard.is_none() && current_schema.is_some() {
+                return None;
+            }
+
             return match self
                 .store
                 .try_get_document_schema(&sub_schema_link.schema_uri)
@@ -368,7 +385,7 @@ impl SchemaContext<'_> {
                 Ok(Some(document_schema)) => document_schema.as_current_schema().map(|schema| {
                     let mut schema = schema.into_owned();
                     schema.strict = Some(sub_schema_link.strict.into());
-                    Ok(schema)
+                    Ok((schema, cycle_guard))
                 }),
                 Ok(None) => None,
                 Err(err) => Some(Err(err)),
diff --git a/crates/tombi-schema-store/src/schema/schema_cycle_guard.rs b/crates/tombi-schema-store/src/schema/schema_cycle_guard.rs
index 20dcd0b..35fb3f4 100644
--- a/crates/tombi-schema-store/src/schema/schema_cycle_guard.rs
+++ b/crates/tombi-schema-store/src/schema/schema_cycle_guard.rs
@@ -31,6 +31,14 @@ impl SchemaVisits {
         self.get_cycle_guard_with_key(key)
     }
 
+    pub fn get_sub_schema_cycle_guard(
+        &self,
+        sub_schema_link: &crate::SubSchemaLink,
+    ) -> Option<SchemaCycleGuard> {
+        let key = std::ptr::from_ref(sub_schema_link) as usize;
+        self.get_cycle_guard_with_key(key)
+    }
+
     fn lock(&self) -> MutexGuard<'_, tombi_hashmap::HashSet<usize>> {
         self.0
             .lock()
diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 0de6553..9c7098d 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -27,7 +27,7 @@ impl Validate for tombi_document_tree::Array {
             .map(|directives| directives.cloned().collect_vec());
 
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 88e135e..a05a1fb 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -29,7 +29,7 @@ impl Validate for tombi_document_tree::Table {
         schema_context: &'a tombi_schema_store::SchemaContext,
     ) -> BoxFuture<'b, Result<crate::Valid, crate::Invalid>> {
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
diff --git a/crates/tombi-validator/src/validate/value.rs b/crates/tombi-validator/src/validate/value.rs
index 5e65249..e6be3af 100644
--- a/crates/tombi-validator/src/validate/value.rs
+++ b/crates/tombi-validator/src/validate/value.rs
@@ -10,7 +10,7 @@ impl Validate for tombi_document_tree::Value {
         schema_context: &'a tombi_schema_store::SchemaContext,
     ) -> BoxFuture<'b, Result<crate::Valid, crate::Invalid>> {
         async move {
-            if let Some(Ok(current_schema)) = schema_context
+            if let Some(Ok((current_schema, _cycle_guard))) = schema_context
                 .get_subschema(accessors, current_schema)
                 .await
             {
-- 
2.43.0


From 2cb84a14e4ab491545081f378087cc8ce2e1d064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:17 +0000
Subject: [PATCH 49/67] fix: sub-schemas apply below tables and arrays that the
 root schema leaves open

---
 .../src/schema/schema_context.rs                 | 13 +++++++++++++
 crates/tombi-validator/src/validate/array.rs     | 12 ++++++++++++
 crates/tombi-validator/src/validate/table.rs     | 16 ++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/crates/tombi-schema-store/src/schema/schema_context.rs b/crates/tombi-schema-store/src/schema/schema_context.rs
index 0f79575..c0d54f6 100644
--- a/crates/tombi-schema-store/src/schema/schema_context.rs
+++ b/crates/tombi-schema-store/src/schema/schema_context.rs
@@ -339,6 +339,19 @@ impl SchemaContext<'_> {
         Some(schema_uri)
     }
 
+    /// Whether a sub-schema may apply to the value at the accessors or to a value inside it.
+    pub fn may_contain_subschema(&self, accessors: &[crate::Accessor]) -> bool {
+        self.sub_schema_link_map.is_some_and(|sub_schema_link_map| {
+            sub_schema_link_map.keys().any(|pattern| {
+                pattern.len() >= accessors.len()
+                    && pattern
+                        .iter()
+                        .zip(accessors)
+                        .all(|(expected, actual)| expected == actual)
+            })
+        })
+    }
+
     /// The sub-schema for the accessors, unless `current_schema` comes from applying it: the branches
     /// of a sub-schema may be other documents. Hold the guard while the sub-schema is in use.
     pub async fn get_subschema(
diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 9c7098d..87d95a4 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -100,6 +100,9 @@ impl Validate for tombi_document_tree::Array {
                         .await
                     }
                     SchemaView::Null => handle_nothing_schema(self),
+                    SchemaView::Anything(_) if schema_context.may_contain_subschema(accessors) => {
+                        validate_array_without_schema(self, accessors, schema_context).await
+                    }
                     SchemaView::Anything(_) => handle_anything_schema(self),
                     SchemaView::Nothing(_) => handle_nothing_schema(self),
                     _ => {
@@ -347,6 +350,15 @@ async fn validate_array(
                 }
             }
         }
+    } else if schema_context.may_contain_subschema(accessors)
+        && let Err(crate::Invalid {
+            assertion_failed: child_assertion_failed,
+            diagnostics,
+            ..
+        }) = validate_array_without_schema(array_value, accessors, schema_context).await
+    {
+        assertion_failed |= child_assertion_failed;
+        total_diagnostics.extend(diagnostics);
     }
 
     let contains_schema = match &array_schema.contains {
diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index a05a1fb..3049916 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -107,6 +107,9 @@ impl Validate for tombi_document_tree::Table {
                         .await
                     }
                     SchemaView::Null => handle_nothing_schema(self),
+                    SchemaView::Anything(_) if schema_context.may_contain_subschema(accessors) => {
+                        validate_table_without_schema(self, accessors, schema_context).await
+                    }
                     SchemaView::Anything(_) => handle_anything_schema(self),
                     SchemaView::Nothing(_) => handle_nothing_schema(self),
                     _ => {
@@ -414,6 +417,19 @@ async fn validate_table(
                 }
             }
 
+            // A sub-schema applies no matter what this schema says about the key.
+            if !validated_by_additional_schema
+                && schema_context.may_contain_subschema(&new_accessors)
+                && let Err(crate::Invalid {
+                    assertion_failed: child_assertion_failed,
+                    diagnostics,
+                    ..
+                }) = value.validate(&new_accessors, None, schema_context).await
+            {
+                assertion_failed |= child_assertion_failed;
+                total_diagnostics.extend(diagnostics);
+            }
+
             // `additionalProperties` contributes to evaluated properties only when the keyword exists.
             // When it's absent, unevaluatedProperties must still run.
             let evaluated_by_additional_default = table_schema.additional_properties().is_some();
-- 
2.43.0


From 38a318c604f2ca2ab5e73461c7656867839512aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:53 +0000
Subject: [PATCH 50/67] fix: formatting does not replace the diagnostics of the
 document

In push mode a formatting request that changed nothing cleared the published
diagnostics (lint warnings and errors vanished), and in pull mode the errors
of a failed request stayed next to the pulled ones until a later request
cleared them.
---
 crates/tombi-lsp/src/handler/formatting.rs | 33 ++++------------------
 1 file changed, 6 insertions(+), 27 deletions(-)

diff --git a/crates/tombi-lsp/src/handler/formatting.rs b/crates/tombi-lsp/src/handler/formatting.rs
index 18bb6d8..89a19e0 100644
--- a/crates/tombi-lsp/src/handler/formatting.rs
+++ b/crates/tombi-lsp/src/handler/formatting.rs
@@ -1,13 +1,10 @@
 use std::path::Path;
 
-use itertools::{Either, Itertools};
+use itertools::Either;
 use tombi_config::{FormatRules, IndentStyle, IndentWidth, OverrideFormatOptions};
 use tombi_glob::{MatchResult, matches_file_patterns};
 use tombi_text::{IntoLsp, Position, Range};
-use tower_lsp::lsp_types::{
-    DocumentFormattingParams, FormattingOptions, PublishDiagnosticsParams, TextEdit,
-    notification::PublishDiagnostics,
-};
+use tower_lsp::lsp_types::{DocumentFormattingParams, FormattingOptions, TextEdit};
 use unicode_segmentation::UnicodeSegmentation;
 
 use crate::{backend::Backend, config_manager::ConfigSchemaStore};
@@ -71,7 +68,7 @@ pub async fn handle_formatting(
         }
     }
 
-    let (toml_version, document_text, line_index, version) = {
+    let (toml_version, document_text, line_index) = {
         let Ok(document_sources) = backend.document_sources.try_read() else {
             return Ok(None);
         };
@@ -83,7 +80,6 @@ pub async fn handle_formatting(
             document_source.toml_version,
             document_source.text_arc(),
             document_source.line_index_arc(),
-            document_source.version,
         )
     };
 
@@ -125,29 +121,12 @@ pub async fn handle_formatting(
                 return Ok(Some(edits));
             } else {
                 log::debug!("no change");
-                backend
-                    .client
-                    .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-                        uri: text_document_uri.into(),
-                        diagnostics: Vec::new(),
-                        version,
-                    })
-                    .await;
+                backend.push_diagnostics(text_document_uri).await;
             }
         }
-        Err(diagnostics) => {
+        Err(_) => {
             log::error!("failed to format");
-            backend
-                .client
-                .send_notification::<PublishDiagnostics>(PublishDiagnosticsParams {
-                    uri: text_document_uri.into(),
-                    diagnostics: diagnostics
-                        .into_iter()
-                        .map(|diagnostic| diagnostic.into_lsp(line_index.as_ref()))
-                        .collect_vec(),
-                    version,
-                })
-                .await;
+            backend.push_diagnostics(text_document_uri).await;
         }
     }
 
-- 
2.43.0


From 7cb0ca5fc8a47cdccddc0b7a84b1f9d1cffdd08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 51/67] fix: an override that enables sorting shows the order
 of the schema

---
 .../src/schema/schema_context.rs              | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/crates/tombi-schema-store/src/schema/schema_context.rs b/crates/tombi-schema-store/src/schema/schema_context.rs
index c0d54f6..4f86337 100644
--- a/crates/tombi-schema-store/src/schema/schema_context.rs
+++ b/crates/tombi-schema-store/src/schema/schema_context.rs
@@ -208,12 +208,18 @@ impl SchemaContext<'_> {
                         disabled: true,
                     });
             }
-            if let Some(order) = override_item.order {
-                return Some(ResolvedFormatOrder {
+            return match override_item.order {
+                Some(order) => Some(ResolvedFormatOrder {
                     order: crate::XTombiTableKeysOrder::All(order),
                     disabled: false,
-                });
-            }
+                }),
+                None => self
+                    .table_keys_order_from_schema(current_schema)
+                    .map(|order| ResolvedFormatOrder {
+                        order,
+                        disabled: false,
+                    }),
+            };
         }
 
         let current_schema = current_schema?;
@@ -256,12 +262,18 @@ impl SchemaContext<'_> {
                         disabled: true,
                     });
             }
-            if let Some(order) = override_item.order {
-                return Some(ResolvedFormatOrder {
+            return match override_item.order {
+                Some(order) => Some(ResolvedFormatOrder {
                     order: crate::XTombiArrayValuesOrder::All(order),
                     disabled: false,
-                });
-            }
+                }),
+                None => self
+                    .array_values_order_from_schema(current_schema)
+                    .map(|order| ResolvedFormatOrder {
+                        order,
+                        disabled: false,
+                    }),
+            };
         }
 
         let current_schema = current_schema?;
-- 
2.43.0


From b99186c539bc212595982f08426732f1c531daa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 52/67] fix: arrays in arrays take the order of their
 sub-schema

---
 crates/tombi-ast-editor/src/edit/array.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/tombi-ast-editor/src/edit/array.rs b/crates/tombi-ast-editor/src/edit/array.rs
index be7d7d4..9364d19 100644
--- a/crates/tombi-ast-editor/src/edit/array.rs
+++ b/crates/tombi-ast-editor/src/edit/array.rs
@@ -25,6 +25,14 @@ impl crate::Edit for tombi_ast::Array {
             let tombi_document_tree::Value::Array(array_node) = node else {
                 return Vec::new();
             };
+            let sub_schema = schema_context
+                .get_subschema(accessors, current_schema)
+                .await
+                .and_then(Result::ok);
+            let current_schema = sub_schema
+                .as_ref()
+                .map(|(current_schema, _cycle_guard)| current_schema)
+                .or(current_schema);
             let current_item_schema = resolve_array_item_edit_context(
                 array_node,
                 accessors,
-- 
2.43.0


From 60dbb5f05fc01888abd44628b30060a7af092c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:02 +0000
Subject: [PATCH 53/67] fix: orders of overrides and sub-schemas apply to the
 tables they name

---
 crates/tombi-ast-editor/src/edit.rs           |  2 +-
 crates/tombi-ast-editor/src/edit/root.rs      |  2 +-
 .../src/rule/array_values_order.rs            |  4 +-
 .../src/rule/inline_table_keys_order.rs       |  8 ++-
 .../src/rule/root_table_keys_order.rs         | 25 ++++++--
 .../src/rule/table_keys_order.rs              | 58 +++++++++++++++----
 crates/tombi-schema-store/src/schema.rs       |  4 ++
 7 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/crates/tombi-ast-editor/src/edit.rs b/crates/tombi-ast-editor/src/edit.rs
index ad0f388..f69fc0c 100644
--- a/crates/tombi-ast-editor/src/edit.rs
+++ b/crates/tombi-ast-editor/src/edit.rs
@@ -11,7 +11,7 @@ mod array;
 mod array_of_table;
 mod inline_table;
 mod key_value;
-mod root;
+pub(crate) mod root;
 mod table;
 mod value;
 
diff --git a/crates/tombi-ast-editor/src/edit/root.rs b/crates/tombi-ast-editor/src/edit/root.rs
index 901708c..28470a6 100644
--- a/crates/tombi-ast-editor/src/edit/root.rs
+++ b/crates/tombi-ast-editor/src/edit/root.rs
@@ -171,7 +171,7 @@ impl crate::Edit for tombi_ast::Root {
     }
 }
 
-fn accessors_to_root(accessors: &[Accessor]) -> Vec<PatternAccessor> {
+pub(crate) fn accessors_to_root(accessors: &[Accessor]) -> Vec<PatternAccessor> {
     accessors
         .iter()
         .map(|accessor| match accessor {
diff --git a/crates/tombi-ast-editor/src/rule/array_values_order.rs b/crates/tombi-ast-editor/src/rule/array_values_order.rs
index abcaa22..2be235b 100644
--- a/crates/tombi-ast-editor/src/rule/array_values_order.rs
+++ b/crates/tombi-ast-editor/src/rule/array_values_order.rs
@@ -63,7 +63,9 @@ pub async fn array_values_order<'a>(
         array_order_overrides.and_then(|overrides| overrides.find(accessors));
     let schema_override = schema_context.array_order_override(current_schema, accessors);
     if comment_directive_override.is_some_and(|override_item| override_item.disabled)
-        || schema_override.is_some_and(|override_item| override_item.disabled)
+        || comment_directive_override.is_none()
+            && comment_directive_order.is_none()
+            && schema_override.is_some_and(|override_item| override_item.disabled)
     {
         return Vec::new();
     }
diff --git a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
index 25fd7b4..ab0fafa 100644
--- a/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/inline_table_keys_order.rs
@@ -6,7 +6,10 @@ use tombi_comment_directive::value::{
 use tombi_schema_store::{CurrentSchema, SchemaContext};
 use tombi_syntax::SyntaxElement;
 
-use crate::rule::{inline_table_comma_trailing_comment, table_keys_order::get_sorted_accessors};
+use crate::rule::{
+    inline_table_comma_trailing_comment,
+    table_keys_order::{get_sorted_accessors, with_comment_directive_order},
+};
 
 pub async fn inline_table_keys_order<'a>(
     node: &'a tombi_document_tree::Value,
@@ -33,6 +36,7 @@ pub async fn inline_table_keys_order<'a>(
     let order = comment_directive
         .as_ref()
         .and_then(|comment_directive| comment_directive.table_keys_order().map(Into::into));
+    let table_order_overrides = with_comment_directive_order(None, accessors, order);
 
     let mut changes = vec![];
 
@@ -62,7 +66,7 @@ pub async fn inline_table_keys_order<'a>(
         current_schema,
         schema_context,
         order,
-        None,
+        Some(&table_order_overrides),
     )
     .await
     else {
diff --git a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
index c33e18b..70ec356 100644
--- a/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/root_table_keys_order.rs
@@ -7,7 +7,9 @@ use tombi_schema_store::{CurrentSchema, SchemaContext};
 use tombi_syntax::SyntaxElement;
 
 use crate::rule::TableOrderOverrides;
-use crate::rule::table_keys_order::{get_sorted_accessors, table_keys_order};
+use crate::rule::table_keys_order::{
+    get_sorted_accessors, table_keys_order, with_comment_directive_order,
+};
 
 pub async fn root_table_keys_order<'a>(
     node: &'a tombi_document_tree::Value,
@@ -60,15 +62,26 @@ pub async fn root_table_keys_order<'a>(
     }
 
     let schema_override = schema_context.table_order_override(current_schema, &[]);
-    let root_order =
-        comment_directive_order.or(schema_override.and_then(|override_item| override_item.order));
     let schema_order_enabled = schema_override.is_some_and(|override_item| !override_item.disabled)
         || schema_context.schema_table_keys_order_enabled(current_schema);
+    // tables below the root have orders of their own
+    let has_table_orders = table_order_overrides.is_some_and(|overrides| !overrides.is_empty())
+        || schema_context
+            .sub_schema_link_map
+            .is_some_and(|sub_schema_link_map| !sub_schema_link_map.is_empty())
+        || schema_context.schema_overrides.is_some_and(|overrides| {
+            overrides
+                .values()
+                .any(|overrides| !overrides.table_keys_order.is_empty())
+        });
 
-    if root_order.is_none() && !schema_order_enabled {
+    if comment_directive_order.is_none() && !schema_order_enabled && !has_table_orders {
         return changes;
     }
 
+    let table_order_overrides =
+        with_comment_directive_order(table_order_overrides, &[], comment_directive_order);
+
     let old = std::ops::RangeInclusive::new(
         SyntaxElement::Node(table_or_array_of_tables.first().unwrap().syntax().clone()),
         SyntaxElement::Node(table_or_array_of_tables.last().unwrap().syntax().clone()),
@@ -90,8 +103,8 @@ pub async fn root_table_keys_order<'a>(
             .collect_vec(),
         current_schema,
         schema_context,
-        root_order,
-        table_order_overrides,
+        comment_directive_order,
+        Some(&table_order_overrides),
     )
     .await
     else {
diff --git a/crates/tombi-ast-editor/src/rule/table_keys_order.rs b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
index 561d75a..ef1e452 100644
--- a/crates/tombi-ast-editor/src/rule/table_keys_order.rs
+++ b/crates/tombi-ast-editor/src/rule/table_keys_order.rs
@@ -14,7 +14,7 @@ use tombi_syntax::SyntaxElement;
 use tombi_validator::Validate;
 use tombi_x_keyword::{TableKeysOrder, TableKeysOrderGroupKind};
 
-use crate::rule::TableOrderOverrides;
+use crate::rule::{TableOrderOverride, TableOrderOverrides};
 
 pub async fn table_keys_order<'a>(
     value: &'a tombi_document_tree::Value,
@@ -43,9 +43,13 @@ pub async fn table_keys_order<'a>(
         .and_then(|comment_directive| comment_directive.table_keys_order().map(Into::into));
 
     let schema_override = schema_context.table_order_override(current_schema, accessors);
-    if schema_override.is_some_and(|override_item| override_item.disabled) {
+    if comment_directive_order.is_none()
+        && schema_override.is_some_and(|override_item| override_item.disabled)
+    {
         return Vec::new();
     }
+    let table_order_overrides =
+        with_comment_directive_order(None, accessors, comment_directive_order);
 
     let old = std::ops::RangeInclusive::new(
         SyntaxElement::Node(key_values_with_comma.first().unwrap().0.syntax().clone()),
@@ -74,7 +78,7 @@ pub async fn table_keys_order<'a>(
         current_schema,
         schema_context,
         comment_directive_order,
-        None,
+        Some(&table_order_overrides),
     )
     .await
     else {
@@ -98,6 +102,23 @@ pub async fn table_keys_order<'a>(
     vec![crate::Change::ReplaceRange { old, new }]
 }
 
+/// The order that the comment directive of the table at the accessors asks for is an override, too.
+pub fn with_comment_directive_order(
+    table_order_overrides: Option<&TableOrderOverrides>,
+    accessors: &[tombi_schema_store::Accessor],
+    order: Option<TableKeysOrder>,
+) -> TableOrderOverrides {
+    let mut table_order_overrides = table_order_overrides.cloned().unwrap_or_default();
+    if order.is_some() {
+        table_order_overrides.push(TableOrderOverride {
+            target: crate::edit::root::accessors_to_root(accessors),
+            disabled: false,
+            order,
+        });
+    }
+    table_order_overrides
+}
+
 pub fn get_sorted_accessors<'a: 'b, 'b, T>(
     value: &'a tombi_document_tree::Value,
     accessors: &'a [tombi_schema_store::Accessor],
@@ -111,6 +132,22 @@ where
     T: Send + Clone + std::fmt::Debug + 'b,
 {
     async move {
+        if let Some(Ok((current_schema, _cycle_guard))) = schema_context
+            .get_subschema(accessors, current_schema)
+            .await
+        {
+            return get_sorted_accessors(
+                value,
+                accessors,
+                targets,
+                Some(&current_schema),
+                schema_context,
+                order,
+                table_order_overrides,
+            )
+            .await;
+        }
+
         if let Some(CurrentSchema {
             schema_view,
             schema_uri,
@@ -213,11 +250,9 @@ where
                 });
 
                 let sorting_disabled = comment_directive_override
+                    .or(schema_override)
                     .map(|override_order| override_order.disabled)
-                    .unwrap_or_default()
-                    || schema_override
-                        .map(|override_order| override_order.disabled)
-                        .unwrap_or_default();
+                    .unwrap_or_default();
                 let override_order = comment_directive_override
                     .and_then(|override_order| override_order.order)
                     .or(order)
@@ -238,9 +273,12 @@ where
                 };
 
                 for (accessor, targets) in sorted_targets {
-                    if let Some(value) = accessor.as_key().and_then(|key| table.get(key))
-                        && let (Some(current_schema), Some(table_schema)) =
-                            (current_schema, table_schema)
+                    let Some(value) = accessor.as_key().and_then(|key| table.get(key)) else {
+                        results.extend(targets.into_iter().map(|(_, target)| target));
+                        continue;
+                    };
+                    if let (Some(current_schema), Some(table_schema)) =
+                        (current_schema, table_schema)
                     {
                         if let Ok(Some(current_schema)) = table_schema
                             .resolve_property_schema(
diff --git a/crates/tombi-schema-store/src/schema.rs b/crates/tombi-schema-store/src/schema.rs
index 188eb1a..1d32ad9 100644
--- a/crates/tombi-schema-store/src/schema.rs
+++ b/crates/tombi-schema-store/src/schema.rs
@@ -110,6 +110,10 @@ impl<T: Copy> OrderOverrides<T> {
         self.inner.push(override_item);
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.inner.is_empty()
+    }
+
     pub fn find(&self, accessors: &[Accessor]) -> Option<&OrderOverride<T>> {
         find_best_pattern_match(&self.inner, accessors, |override_item| {
             &override_item.target
-- 
2.43.0


From 366f46636d9e385da6e691285b67d4835eb64c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:36 +0000
Subject: [PATCH 54/67] fix: columns of locations in files that are not open
 follow the negotiated encoding

---
 crates/tombi-lsp/src/location.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/crates/tombi-lsp/src/location.rs b/crates/tombi-lsp/src/location.rs
index c102fe9..7ce58b0 100644
--- a/crates/tombi-lsp/src/location.rs
+++ b/crates/tombi-lsp/src/location.rs
@@ -18,6 +18,7 @@ pub async fn into_lsp_locations(
         }
     }
 
+    let encoding_kind = backend.capabilities.read().await.encoding_kind;
     let document_sources = backend.document_sources.try_read().ok();
 
     let locations = locations
@@ -31,7 +32,13 @@ pub async fn into_lsp_locations(
                 .and_then(|ds| ds.get(&location.uri))
             {
                 Some(document_source) => location.range.into_lsp(document_source.line_index()),
-                None => tombi_text::convert_range_to_lsp(location.range),
+                // Not open in the editor: the columns still depend on the text of the line.
+                None => match read_text(&location.uri) {
+                    Some(text) => location
+                        .range
+                        .into_lsp(&tombi_text::LineIndex::new(&text, encoding_kind)),
+                    None => tombi_text::convert_range_to_lsp(location.range),
+                },
             };
             tower_lsp::lsp_types::Location {
                 uri: location.uri.into(),
@@ -42,3 +49,7 @@ pub async fn into_lsp_locations(
 
     Ok(locations)
 }
+
+fn read_text(uri: &tombi_uri::Uri) -> Option<String> {
+    tombi_fs::read_to_string(&uri.to_file_path().ok()?).ok()
+}
-- 
2.43.0


From 562112979f0b0caa02af39c20df77da010ede321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:25 +0000
Subject: [PATCH 55/67] fix: a Cargo.toml with a [workspace] table belongs to
 that workspace

---
 extensions/tombi-extension-cargo/src/inlay_hint.rs | 6 ++++++
 extensions/tombi-extension-cargo/src/workspace.rs  | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/extensions/tombi-extension-cargo/src/inlay_hint.rs b/extensions/tombi-extension-cargo/src/inlay_hint.rs
index 1fa34df..a988342 100644
--- a/extensions/tombi-extension-cargo/src/inlay_hint.rs
+++ b/extensions/tombi-extension-cargo/src/inlay_hint.rs
@@ -1318,6 +1318,12 @@ fn find_workspace_cargo_toml_with_local_cache(
         workspace_document_tree
             .contains_key("workspace")
             .then_some((workspace_cargo_toml_path, workspace_document_tree))
+    } else if let Some(own_cargo_toml) =
+        load_cached_cargo_toml_document_tree(local_cargo_toml_cache, cargo_toml_path, toml_version)
+            .filter(|(_, document_tree)| document_tree.contains_key("workspace"))
+    {
+        // A manifest with a `[workspace]` table is the root of its own workspace.
+        Some(own_cargo_toml)
     } else {
         let mut current_dir = cargo_toml_path.parent()?;
 
diff --git a/extensions/tombi-extension-cargo/src/workspace.rs b/extensions/tombi-extension-cargo/src/workspace.rs
index ba4c5e0..97c964a 100644
--- a/extensions/tombi-extension-cargo/src/workspace.rs
+++ b/extensions/tombi-extension-cargo/src/workspace.rs
@@ -115,6 +115,13 @@ pub(crate) fn find_workspace_cargo_toml(
         ));
     }
 
+    // A manifest with a `[workspace]` table is the root of its own workspace.
+    if let Some((root, document_tree)) = load_cargo_toml(cargo_toml_path, toml_version)
+        && document_tree.contains_key("workspace")
+    {
+        return Some((cargo_toml_path.to_path_buf(), root, document_tree));
+    }
+
     let (workspace_cargo_toml_path, (root, document_tree)) =
         tombi_extension_manifest::find_ancestor_manifest(
             cargo_toml_path,
-- 
2.43.0


From 1d32a653298846cd0c120dfa3e737e8b12c89f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:47 +0000
Subject: [PATCH 56/67] fix: go to definition reaches a dependency that is the
 workspace's root package

---
 .../src/goto_definition.rs                    | 36 ++++++++-----------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/goto_definition.rs b/extensions/tombi-extension-cargo/src/goto_definition.rs
index a4bf247..5c93575 100644
--- a/extensions/tombi-extension-cargo/src/goto_definition.rs
+++ b/extensions/tombi-extension-cargo/src/goto_definition.rs
@@ -1,12 +1,11 @@
 use crate::{
     CargoNavigationFeature, classify_cargo_navigation_feature, dependency_feature_string_context,
-    dependency_parent_accessors, feature_table_string_at_accessors, find_workspace_cargo_toml,
-    get_workspace_cargo_toml_path, goto_definition_for_workspace_cargo_toml,
-    goto_workspace_managed_dependency_locations, is_dependency_accessor, is_feature_key_accessor,
-    is_optional_dependency, is_optional_dependency_accessor, is_package_name_accessor,
-    is_workspace_definition_accessor, is_workspace_dependency_accessor, is_workspace_flag_accessor,
-    is_workspace_managed_dependency_accessor, resolve_dependency_feature_string,
-    resolve_feature_table_string,
+    dependency_parent_accessors, feature_table_string_at_accessors,
+    goto_definition_for_workspace_cargo_toml, goto_workspace_managed_dependency_locations,
+    is_feature_key_accessor, is_optional_dependency, is_optional_dependency_accessor,
+    is_package_name_accessor, is_workspace_definition_accessor, is_workspace_dependency_accessor,
+    is_workspace_flag_accessor, is_workspace_managed_dependency_accessor,
+    resolve_dependency_feature_string, resolve_feature_table_string,
 };
 use tombi_config::TomlVersion;
 use tombi_document_tree::{Value, dig_accessors, dig_keys};
@@ -236,27 +235,20 @@ fn goto_dependency_definition_locations(
         true,
     )?;
 
-    if !is_dependency_accessor(accessors)
-        && !is_workspace_managed_dependency_accessor(document_tree, accessors)
-    {
+    if !is_workspace_managed_dependency_accessor(document_tree, accessors) {
         return Ok(locations);
     }
 
-    let workspace_cargo_toml_path = find_workspace_cargo_toml(
+    // The entry of `workspace.dependencies` is not the definition.
+    let workspace_locations = goto_workspace_managed_dependency_locations(
+        document_tree,
+        accessors,
         cargo_toml_path,
-        get_workspace_cargo_toml_path(document_tree),
         toml_version,
-    )
-    .map(|(workspace_path, _, _)| workspace_path);
+        false,
+    )?;
 
-    locations.retain(|location| {
-        let Ok(location_path) = location.uri.to_file_path() else {
-            return true;
-        };
-        workspace_cargo_toml_path
-            .as_ref()
-            .is_none_or(|workspace_path| location_path != *workspace_path)
-    });
+    locations.retain(|location| !workspace_locations.contains(location));
 
     Ok(locations)
 }
-- 
2.43.0


From 35b84359e317a973972dabf5f891dc64ede20101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:49 +0000
Subject: [PATCH 57/67] fix: workspace.exclude of a Cargo.toml is relative to
 the workspace

---
 .../tombi-extension-cargo/src/workspace.rs     | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/extensions/tombi-extension-cargo/src/workspace.rs b/extensions/tombi-extension-cargo/src/workspace.rs
index 97c964a..de6b3cb 100644
--- a/extensions/tombi-extension-cargo/src/workspace.rs
+++ b/extensions/tombi-extension-cargo/src/workspace.rs
@@ -574,6 +574,18 @@ pub(crate) fn find_package_cargo_toml_paths<'a>(
     exclude_patterns: &'a [&'a tombi_document_tree::String],
     workspace_dir_path: &'a std::path::Path,
 ) -> impl Iterator<Item = (&'a tombi_document_tree::String, std::path::PathBuf)> + 'a {
+    // The paths of `workspace.exclude` are relative to the workspace, like those of its members.
+    // A member that is listed by its own path stays a member.
+    let resolve_path =
+        |path: &str| tombi_fs::normalize(&workspace_dir_path.join(std::path::Path::new(path)));
+    let exclude_paths = exclude_patterns
+        .iter()
+        .map(|pattern| resolve_path(pattern.value()))
+        .collect_vec();
+    let member_paths = member_patterns
+        .iter()
+        .map(|pattern| resolve_path(pattern.value()))
+        .collect_vec();
     let exclude_patterns = exclude_patterns
         .iter()
         .filter_map(|pattern| glob::Pattern::new(pattern.value()).ok())
@@ -605,9 +617,13 @@ pub(crate) fn find_package_cargo_toml_paths<'a>(
                     continue;
                 }
 
+                let crate_path = tombi_fs::normalize(&candidate_path);
                 let is_excluded = exclude_patterns.iter().any(|exclude_pattern| {
                     exclude_pattern.matches(&cargo_toml_path.to_string_lossy())
-                });
+                }) || (exclude_paths
+                    .iter()
+                    .any(|path| crate_path.starts_with(path))
+                    && !member_paths.iter().any(|path| crate_path.starts_with(path)));
 
                 if !is_excluded {
                     cargo_toml_paths.push((member_pattern, cargo_toml_path));
-- 
2.43.0


From 5205f1dec7c9677a880a01ba6aedde3e26c7a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:50 +0000
Subject: [PATCH 58/67] fix: references of a workspace dependency are the
 entries that inherit it

---
 extensions/tombi-extension-cargo/src/workspace.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/extensions/tombi-extension-cargo/src/workspace.rs b/extensions/tombi-extension-cargo/src/workspace.rs
index de6b3cb..961ff5d 100644
--- a/extensions/tombi-extension-cargo/src/workspace.rs
+++ b/extensions/tombi-extension-cargo/src/workspace.rs
@@ -392,6 +392,17 @@ pub(crate) fn workspace_dependency_usage_locations(
         return Ok(Vec::new());
     };
 
+    // Other entries of the same name do not use the workspace dependency.
+    let uses_workspace = |value: &tombi_document_tree::Value| {
+        matches!(
+            value,
+            tombi_document_tree::Value::Table(table) if matches!(
+                table.get("workspace"),
+                Some(tombi_document_tree::Value::Boolean(workspace)) if workspace.value()
+            )
+        )
+    };
+
     let mut locations = Vec::new();
     for crate_location in goto_workspace_member_crates(
         workspace_document_tree,
@@ -407,8 +418,9 @@ pub(crate) fn workspace_dependency_usage_locations(
         };
 
         for dependency_kind in ["dependencies", "dev-dependencies", "build-dependencies"] {
-            if let Some((crate_key, _)) =
+            if let Some((crate_key, crate_value)) =
                 tombi_document_tree::dig_keys(&crate_document_tree, &[dependency_kind, crate_name])
+                && uses_workspace(crate_value)
                 && let Some(mut definition_location) =
                     Option::<tombi_extension::Location>::from(crate_location.clone())
             {
@@ -433,6 +445,7 @@ pub(crate) fn workspace_dependency_usage_locations(
                             }
                             _ => None,
                         })
+                        .filter(|(_, crate_value)| uses_workspace(crate_value))
                     else {
                         continue;
                     };
-- 
2.43.0


From 69998dbe8c36dc4691dc5337397fcb162d878687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:31 +0000
Subject: [PATCH 59/67] fix: references in a Cargo workspace include those of
 its root package

---
 extensions/tombi-extension-cargo/src/lib.rs   |  4 +--
 .../tombi-extension-cargo/src/references.rs   |  8 ++---
 .../tombi-extension-cargo/src/workspace.rs    | 35 +++++++++++++++++--
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/lib.rs b/extensions/tombi-extension-cargo/src/lib.rs
index 8ab8bfc..6bb6482 100644
--- a/extensions/tombi-extension-cargo/src/lib.rs
+++ b/extensions/tombi-extension-cargo/src/lib.rs
@@ -46,8 +46,8 @@ pub(crate) use feature_navigation::{
 pub(crate) use workspace::{
     canonicalize_or_original, find_package_cargo_toml_paths, find_workspace_cargo_toml,
     get_workspace_cargo_toml_path, goto_definition_for_workspace_cargo_toml,
-    goto_workspace_managed_dependency_locations, goto_workspace_member_crates,
-    load_cargo_toml_document_tree, load_workspace_cargo_toml, sanitize_dependency_key,
+    goto_workspace_managed_dependency_locations, load_cargo_toml_document_tree,
+    load_workspace_cargo_toml, sanitize_dependency_key, workspace_crates,
     workspace_dependency_usage_locations,
 };
 
diff --git a/extensions/tombi-extension-cargo/src/references.rs b/extensions/tombi-extension-cargo/src/references.rs
index ee33151..f932626 100644
--- a/extensions/tombi-extension-cargo/src/references.rs
+++ b/extensions/tombi-extension-cargo/src/references.rs
@@ -2,8 +2,8 @@ use crate::feature_navigation::collect_feature_usage_locations_in_manifest;
 use crate::{
     collect_feature_usage_locations, dependency_package_name, feature_usage_target_for_feature_key,
     feature_usage_target_for_optional_dependency, get_workspace_cargo_toml_path,
-    goto_workspace_member_crates, is_optional_dependency, is_workspace_dependency_accessor,
-    load_cargo_toml, load_workspace_cargo_toml, workspace_dependency_usage_locations,
+    is_optional_dependency, is_workspace_dependency_accessor, load_cargo_toml,
+    load_workspace_cargo_toml, workspace_crates, workspace_dependency_usage_locations,
 };
 use itertools::Itertools;
 use tombi_config::TomlVersion;
@@ -94,12 +94,10 @@ pub(crate) async fn package_name_reference_locations(
         package_name.value(),
     );
 
-    for crate_location in goto_workspace_member_crates(
+    for crate_location in workspace_crates(
         &workspace_document_tree,
-        &[],
         &workspace_cargo_toml_path,
         toml_version,
-        "members",
     )? {
         let Some((_, crate_document_tree)) =
             load_cargo_toml(&crate_location.cargo_toml_path, toml_version)
diff --git a/extensions/tombi-extension-cargo/src/workspace.rs b/extensions/tombi-extension-cargo/src/workspace.rs
index 961ff5d..98b9978 100644
--- a/extensions/tombi-extension-cargo/src/workspace.rs
+++ b/extensions/tombi-extension-cargo/src/workspace.rs
@@ -404,12 +404,10 @@ pub(crate) fn workspace_dependency_usage_locations(
     };
 
     let mut locations = Vec::new();
-    for crate_location in goto_workspace_member_crates(
+    for crate_location in workspace_crates(
         workspace_document_tree,
-        accessors,
         workspace_cargo_toml_path,
         toml_version,
-        "members",
     )? {
         let Some((_, crate_document_tree)) =
             load_cargo_toml(&crate_location.cargo_toml_path, toml_version)
@@ -777,6 +775,37 @@ pub(crate) fn goto_workspace_member_crates(
     Ok(locations)
 }
 
+/// The crates of a workspace: its members, and its root where that is a package too.
+pub(crate) fn workspace_crates(
+    workspace_document_tree: &tombi_document_tree::DocumentTree,
+    workspace_cargo_toml_path: &std::path::Path,
+    toml_version: TomlVersion,
+) -> Result<Vec<CrateLocation>, tower_lsp::jsonrpc::Error> {
+    let mut crates = goto_workspace_member_crates(
+        workspace_document_tree,
+        &[],
+        workspace_cargo_toml_path,
+        toml_version,
+        "members",
+    )?;
+
+    if let Some((_, tombi_document_tree::Value::String(package_name))) =
+        tombi_document_tree::dig_keys(workspace_document_tree, &["package", "name"])
+    {
+        let workspace_path = canonicalize_or_original(workspace_cargo_toml_path.to_path_buf());
+        if !crates.iter().any(|crate_location| {
+            canonicalize_or_original(crate_location.cargo_toml_path.clone()) == workspace_path
+        }) {
+            crates.push(CrateLocation {
+                cargo_toml_path: workspace_cargo_toml_path.to_path_buf(),
+                package_name_key_range: package_name.unquoted_range(),
+            });
+        }
+    }
+
+    Ok(crates)
+}
+
 #[cfg(test)]
 #[allow(clippy::await_holding_lock)]
 mod tests {
-- 
2.43.0


From b0119e05b208d6180d67a1a1b7aab6a68229e475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 60/67] fix: references of a package include renamed workspace
 dependencies

---
 .../tombi-extension-cargo/src/references.rs   | 33 +++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/references.rs b/extensions/tombi-extension-cargo/src/references.rs
index f932626..7ac8fa6 100644
--- a/extensions/tombi-extension-cargo/src/references.rs
+++ b/extensions/tombi-extension-cargo/src/references.rs
@@ -109,6 +109,7 @@ pub(crate) async fn package_name_reference_locations(
             &mut locations,
             &crate_document_tree,
             &crate_location.cargo_toml_path,
+            &workspace_document_tree,
             package_name.value(),
         );
     }
@@ -146,17 +147,29 @@ fn collect_member_dependency_references(
     locations: &mut Vec<tombi_extension::Location>,
     crate_document_tree: &tombi_document_tree::DocumentTree,
     crate_cargo_toml_path: &std::path::Path,
+    workspace_document_tree: &tombi_document_tree::DocumentTree,
     package_name: &str,
 ) {
     let Ok(uri) = tombi_uri::Uri::from_file_path(crate_cargo_toml_path) else {
         return;
     };
+    let workspace_dependencies =
+        match dig_keys(workspace_document_tree, &["workspace", "dependencies"]) {
+            Some((_, Value::Table(workspace_dependencies))) => Some(workspace_dependencies),
+            _ => None,
+        };
 
     for dependency_kind in ["dependencies", "dev-dependencies", "build-dependencies"] {
         if let Some((_, Value::Table(dependencies))) =
             dig_keys(crate_document_tree, &[dependency_kind])
         {
-            collect_dependency_table_references(locations, &uri, dependencies, package_name);
+            collect_dependency_table_references(
+                locations,
+                &uri,
+                dependencies,
+                workspace_dependencies,
+                package_name,
+            );
         }
     }
 
@@ -171,7 +184,13 @@ fn collect_member_dependency_references(
                 else {
                     continue;
                 };
-                collect_dependency_table_references(locations, &uri, dependencies, package_name);
+                collect_dependency_table_references(
+                    locations,
+                    &uri,
+                    dependencies,
+                    workspace_dependencies,
+                    package_name,
+                );
             }
         }
     }
@@ -181,9 +200,19 @@ fn collect_dependency_table_references(
     locations: &mut Vec<tombi_extension::Location>,
     uri: &tombi_uri::Uri,
     dependencies: &tombi_document_tree::Table,
+    workspace_dependencies: Option<&tombi_document_tree::Table>,
     package_name: &str,
 ) {
     for (dependency_key, dependency_value) in dependencies.key_values() {
+        // An inherited dependency has the package of the workspace's entry.
+        let dependency_value = match dependency_value {
+            Value::Table(table) if matches!(table.get("workspace"), Some(Value::Boolean(workspace)) if workspace.value()) => {
+                workspace_dependencies
+                    .and_then(|dependencies| dependencies.get(dependency_key.value()))
+                    .unwrap_or(dependency_value)
+            }
+            dependency_value => dependency_value,
+        };
         if dependency_package_name(dependency_key.value(), dependency_value) == package_name {
             locations.push(tombi_extension::Location {
                 uri: uri.clone(),
-- 
2.43.0


From 1f53904bffe9330ccb114ef2fc343200eda35fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:24 +0000
Subject: [PATCH 61/67] fix: a dependency is added to workspace.dependencies as
 an entry of its own

The new entry went into a trailing comment, between a comment and the
entry it describes, into the header of a sub-table, or behind the next
entry of an inline table without a comma.
---
 .../tombi-extension-cargo/src/code_action.rs  | 267 +++++++++++-------
 1 file changed, 159 insertions(+), 108 deletions(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index 708bbce..0e71ea4 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -329,6 +329,7 @@ async fn code_actions_for_crate_cargo_toml(
                 &workspace_line_index,
                 &workspace_root,
                 &workspace_document_tree,
+                toml_version,
             )
         {
             code_actions.push(CodeActionOrCommand::CodeAction(action));
@@ -778,102 +779,163 @@ fn calculate_insertion_index(existing_crate_names: &[&str], new_crate_name: &str
         .unwrap_or(existing_crate_names.len())
 }
 
-/// Get AST InlineTable from document tree range
-/// First finds the range in document_tree, then locates the corresponding AST node
-fn get_ast_inline_table_from_document_tree(
+/// Find the syntax of `[workspace.dependencies]`: the table, or the inline table.
+fn find_workspace_dependencies_node<T: tombi_ast::AstNode>(
     root: &tombi_ast::Root,
-    document_tree: &tombi_document_tree::DocumentTree,
-    keys: &[&str],
-) -> Option<tombi_ast::InlineTable> {
+    range: impl Fn(&T) -> bool,
+) -> Option<T> {
     use tombi_ast::AstNode;
 
-    // Get the value from document tree to find its range
-    let (_, value) = tombi_document_tree::dig_keys(document_tree, keys)?;
+    root.syntax().descendants().filter_map(T::cast).find(range)
+}
 
-    let tombi_document_tree::Value::Table(doc_table) = value else {
-        return None;
-    };
+/// The first key of each key-value, which is the crate name.
+fn crate_names(
+    key_values: &[tombi_ast::KeyValue],
+    toml_version: tombi_config::TomlVersion,
+) -> Vec<String> {
+    key_values
+        .iter()
+        .map(|key_value| {
+            key_value
+                .keys()
+                .and_then(|keys| keys.keys().next())
+                .and_then(|key| key.try_to_raw_text(toml_version).ok())
+                .unwrap_or_default()
+        })
+        .collect()
+}
 
-    // Get the range of the inline table in the document tree
-    let target_range = doc_table.range();
+/// The start of an entry, with its leading comments.
+fn entry_start(key_value: &tombi_ast::KeyValue) -> Option<tombi_text::Position> {
+    use tombi_ast::AstNode;
 
-    // Use descendants to find the InlineTable with matching range
-    for node in root.syntax().descendants() {
-        if let Some(inline_table) = tombi_ast::InlineTable::cast(node)
-            && inline_table.range() == target_range
-        {
-            return Some(inline_table);
-        }
+    match key_value.leading_comments().next() {
+        Some(comment) => Some(comment.syntax().range().start),
+        None => key_value.keys().map(|keys| keys.range().start),
     }
+}
 
-    None
+/// Calculate the range to replace and the text for a new entry of a table.
+///
+/// The leading comments of an entry and the trailing comments stay with their entry.
+fn calculate_table_insertion(
+    table: &tombi_ast::Table,
+    new_crate_name: &str,
+    new_entry_text: &str,
+    toml_version: tombi_config::TomlVersion,
+) -> Option<(tombi_text::Range, String)> {
+    use tombi_ast::AstNode;
+
+    let key_values: Vec<_> = table.key_values().collect();
+    let crate_names = crate_names(&key_values, toml_version);
+    let crate_names: Vec<&str> = crate_names.iter().map(String::as_str).collect();
+
+    match key_values.get(calculate_insertion_index(&crate_names, new_crate_name)) {
+        Some(key_value) => Some((
+            tombi_text::Range::at(entry_start(key_value)?),
+            format!("{new_entry_text}\n"),
+        )),
+        None => {
+            let end = match key_values.last() {
+                Some(key_value) => key_value.syntax().range().end,
+                None => match table.header_trailing_comment() {
+                    Some(comment) => comment.syntax().range().end,
+                    None => table.bracket_end()?.range().end,
+                },
+            };
+            Some((tombi_text::Range::at(end), format!("\n{new_entry_text}")))
+        }
+    }
 }
 
-/// Calculate insertion position and text for inline table insertion with comma handling
-/// Uses tombi_ast API to properly handle commas and formatting
+/// Calculate the range to replace and the text for a new entry of an inline table.
 fn calculate_inline_table_insertion(
-    ast_inline_table: &tombi_ast::InlineTable,
-    insertion_index: usize,
+    inline_table: &tombi_ast::InlineTable,
+    new_crate_name: &str,
     new_entry_text: &str,
-) -> Option<(tombi_text::Position, String)> {
+    toml_version: tombi_config::TomlVersion,
+) -> Option<(tombi_text::Range, String)> {
     use tombi_ast::AstNode;
 
-    let key_values_with_comma: Vec<_> = ast_inline_table.key_values_with_comma().collect();
+    let (key_values, commas): (Vec<_>, Vec<_>) = inline_table.key_values_with_comma().unzip();
 
-    if key_values_with_comma.is_empty() {
+    let (Some(last_key_value), Some(last_comma)) = (key_values.last(), commas.last()) else {
         // Empty inline table - insert after opening brace
         // { } -> { serde = "1.0" }
-        return if let Some(dangling_comment) = ast_inline_table
+        return if let Some(dangling_comment) = inline_table
             .dangling_comment_groups()
             .last()
             .and_then(|group| group.comments().last())
         {
             Some((
-                dangling_comment.syntax().range().end,
-                format!("\n\n{},\n", new_entry_text),
+                tombi_text::Range::at(dangling_comment.syntax().range().end),
+                format!("\n\n{new_entry_text},\n"),
+            ))
+        } else if let Some(comment) = inline_table.brace_start_trailing_comment() {
+            Some((
+                tombi_text::Range::at(comment.syntax().range().end),
+                format!("\n{new_entry_text}"),
             ))
         } else {
             Some((
-                ast_inline_table.brace_start()?.range().end,
-                new_entry_text.to_string(),
+                tombi_text::Range::at(inline_table.brace_start()?.range().end),
+                format!(" {new_entry_text}"),
             ))
         };
-    }
+    };
+
+    let crate_names = crate_names(&key_values, toml_version);
+    let crate_names: Vec<&str> = crate_names.iter().map(String::as_str).collect();
 
-    if insertion_index == 0 {
-        // Insert at the beginning
+    if let Some(key_value) = key_values.get(calculate_insertion_index(&crate_names, new_crate_name))
+    {
+        // Insert before the entry
         // { tokio = "1.0" } -> { serde = "1.0", tokio = "1.0" }
-        let (first_key_value, _) = key_values_with_comma.first()?;
-        let insert_pos = first_key_value.syntax().range().start;
-        let new_text = format!("{},\n", new_entry_text);
-        return Some((insert_pos, new_text));
+        let range = inline_table.range();
+        let separator = if range.start.line == range.end.line {
+            " "
+        } else {
+            "\n"
+        };
+        return Some((
+            tombi_text::Range::at(entry_start(key_value)?),
+            format!("{new_entry_text},{separator}"),
+        ));
     }
 
-    if insertion_index >= key_values_with_comma.len() {
-        // Insert at the end
-        // { serde = "1.0" } -> { serde = "1.0", tokio = "1.0" }
-        let (last_key_value, last_comma) = key_values_with_comma.last()?;
-        if let Some(last_comma) = last_comma {
-            let insert_pos = last_comma.range().end;
-            let new_text = format!("\n{}, ", new_entry_text);
-            return Some((insert_pos, new_text));
+    // Insert at the end
+    // { serde = "1.0" } -> { serde = "1.0", tokio = "1.0" }
+    if let Some(last_comma) = last_comma {
+        let range = last_comma.syntax().range();
+        let separator = if last_comma.trailing_comment().is_some() {
+            "\n"
         } else {
-            let insert_pos = last_key_value.syntax().range().end;
-            let new_text = format!(", {}", new_entry_text);
-            return Some((insert_pos, new_text));
-        }
+            " "
+        };
+        return Some((
+            tombi_text::Range::at(range.end),
+            format!("{separator}{new_entry_text},"),
+        ));
     }
 
-    // Insert in the middle
-    // { serde = "1.0", tracing = "0.1" } -> { serde = "1.0", tokio = "1.0", tracing = "0.1" }
-    let (target_key_value, target_comma) = key_values_with_comma.get(insertion_index)?;
-    let insert_pos = if let Some(target_comma) = target_comma {
-        target_comma.range().end
-    } else {
-        target_key_value.syntax().range().end
-    };
-    let new_text = format!("\n{},\n", new_entry_text);
-    Some((insert_pos, new_text))
+    match last_key_value.trailing_comment() {
+        Some(comment) => {
+            let value_end =
+                std::iter::successors(comment.syntax().prev_token(), |token| token.prev_token())
+                    .find(|token| !token.kind().is_trivia())?
+                    .range()
+                    .end;
+            Some((
+                tombi_text::Range::new(value_end, comment.syntax().range().end),
+                format!(", {}\n{new_entry_text}", comment.syntax().text()),
+            ))
+        }
+        None => Some((
+            tombi_text::Range::at(last_key_value.syntax().range().end),
+            format!(", {new_entry_text}"),
+        )),
+    }
 }
 
 /// Add a dependency to workspace.dependencies and convert member's dependency
@@ -911,6 +973,7 @@ fn add_to_workspace_and_inherit_dependency_code_action(
     workspace_line_index: &tombi_text::LineIndex,
     workspace_root: &tombi_ast::Root,
     workspace_document_tree: &tombi_document_tree::DocumentTree,
+    toml_version: tombi_config::TomlVersion,
 ) -> Option<CodeAction> {
     // Check if accessors match dependency patterns
     if accessors.len() < 2 {
@@ -972,6 +1035,7 @@ fn add_to_workspace_and_inherit_dependency_code_action(
         workspace_document_tree,
         crate_name,
         crate_value,
+        toml_version,
     )?;
 
     // Generate member edit to convert to workspace inheritance.
@@ -1020,6 +1084,7 @@ fn generate_workspace_dependencies_edit(
     workspace_document_tree: &tombi_document_tree::DocumentTree,
     crate_name: &str,
     crate_value: &tombi_document_tree::Value,
+    toml_version: tombi_config::TomlVersion,
 ) -> Option<TextEdit> {
     // Get or prepare workspace.dependencies section
     let workspace_deps = dig_keys(workspace_document_tree, &["workspace", "dependencies"]);
@@ -1034,54 +1099,40 @@ fn generate_workspace_dependencies_edit(
         return None;
     };
 
-    // Get existing crate names and calculate insertion index
-    let existing_crates: Vec<&str> = table.keys().map(|key| key.value.as_str()).collect();
-    let insertion_index = calculate_insertion_index(&existing_crates, crate_name);
-    let crate_value_text = crate_value.to_string();
+    let new_entry_text = format!("{crate_name} = {crate_value}");
 
     // Find insertion position in the actual table
-    let (insertion_range, new_text) = if table.kind() == TableKind::Table {
-        let insertion_range = if insertion_index == 0 {
-            if table.is_empty() {
-                tombi_text::Range::at(table.range().end)
-            } else {
-                let range = table.keys().next().unwrap().range();
-                tombi_text::Range::at(range.start)
-            }
-        } else if insertion_index >= existing_crates.len() {
-            // Insert at the end of the table
-            let range = table.range();
-            tombi_text::Range::at(range.end)
-        } else {
-            // Insert before the crate at insertion_index
-            if let Some((target_key, _)) = table.get_key_value(existing_crates[insertion_index]) {
-                let range = target_key.range();
-                tombi_text::Range::at(range.start)
-            } else {
-                let range = table.range();
-                tombi_text::Range::at(range.end)
-            }
-        };
-
-        (
-            insertion_range,
-            format!("{crate_name} = {crate_value_text}\n"),
-        )
-    } else if matches!(table.kind(), TableKind::InlineTable { .. }) {
-        // Handle InlineTable case using AST for accurate comma handling
-        let ast_inline_table = get_ast_inline_table_from_document_tree(
-            workspace_root,
-            workspace_document_tree,
-            &["workspace", "dependencies"],
-        )?;
-
-        let new_entry_text = format!("{crate_name} = {crate_value_text}");
-        let (insertion_pos, new_text) =
-            calculate_inline_table_insertion(&ast_inline_table, insertion_index, &new_entry_text)?;
-
-        (tombi_text::Range::at(insertion_pos), new_text)
-    } else {
-        return None;
+    let (insertion_range, new_text) = match table.kind() {
+        TableKind::Table => {
+            let table_ast = find_workspace_dependencies_node(
+                workspace_root,
+                |table_ast: &tombi_ast::Table| {
+                    table_ast
+                        .header()
+                        .and_then(|header| {
+                            header
+                                .keys()
+                                .map(|key| key.try_to_raw_text(toml_version).ok())
+                                .collect::<Option<Vec<_>>>()
+                        })
+                        .is_some_and(|keys| keys == ["workspace", "dependencies"])
+                },
+            )?;
+            calculate_table_insertion(&table_ast, crate_name, &new_entry_text, toml_version)?
+        }
+        TableKind::InlineTable { .. } => {
+            let inline_table = find_workspace_dependencies_node(
+                workspace_root,
+                |inline_table: &tombi_ast::InlineTable| inline_table.range() == table.range(),
+            )?;
+            calculate_inline_table_insertion(
+                &inline_table,
+                crate_name,
+                &new_entry_text,
+                toml_version,
+            )?
+        }
+        _ => return None,
     };
 
     Some(TextEdit {
-- 
2.43.0


From ffc278ed4c542830ba03723d0cc53c056d4e1876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:14 +0000
Subject: [PATCH 62/67] fix: an optional dependency is not optional in
 workspace.dependencies

Cargo rejects workspace.dependencies entries that are optional.
---
 .../tombi-extension-cargo/src/code_action.rs      | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/extensions/tombi-extension-cargo/src/code_action.rs b/extensions/tombi-extension-cargo/src/code_action.rs
index 0e71ea4..2928d83 100644
--- a/extensions/tombi-extension-cargo/src/code_action.rs
+++ b/extensions/tombi-extension-cargo/src/code_action.rs
@@ -1099,7 +1099,20 @@ fn generate_workspace_dependencies_edit(
         return None;
     };
 
-    let new_entry_text = format!("{crate_name} = {crate_value}");
+    let new_entry_text = match crate_value {
+        // Only the member can be optional.
+        tombi_document_tree::Value::Table(table) => format!(
+            "{crate_name} = {{ {} }}",
+            table
+                .key_values()
+                .iter()
+                .filter(|(key, _)| key.value != "optional")
+                .map(|(key, value)| format!("{key} = {value}"))
+                .collect::<Vec<_>>()
+                .join(", ")
+        ),
+        _ => format!("{crate_name} = {crate_value}"),
+    };
 
     // Find insertion position in the actual table
     let (insertion_range, new_text) = match table.kind() {
-- 
2.43.0


From 6cdee921e9f8cb02e4bd76e4e2259b11e4552c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 63/67] fix: unevaluatedItems takes items that nested schemas
 have evaluated for evaluated

Items matched by nested prefixItems, contains (all of them), or evaluated by a
nested unevaluatedItems: true are not unevaluated in the enclosing schema.
---
 crates/tombi-validator/src/validate/array.rs | 71 +++++++++++---------
 1 file changed, 41 insertions(+), 30 deletions(-)

diff --git a/crates/tombi-validator/src/validate/array.rs b/crates/tombi-validator/src/validate/array.rs
index 87d95a4..ebe661e 100644
--- a/crates/tombi-validator/src/validate/array.rs
+++ b/crates/tombi-validator/src/validate/array.rs
@@ -142,10 +142,10 @@ async fn validate_array(
     let mut validation_result = crate::Valid::new();
     let mut evaluated = vec![false; array_value.values().len()];
     let has_unevaluated_items = array_schema.unevaluated_items_schema.is_some()
-        || array_schema.unevaluated_items == Some(false);
+        || array_schema.unevaluated_items.is_some();
 
-    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref()
-        && let Err(error) = validate_if_then_else(
+    if let Some(if_then_else_schema) = array_schema.if_then_else.as_ref() {
+        match validate_if_then_else(
             array_value,
             accessors,
             if_then_else_schema,
@@ -154,13 +154,35 @@ async fn validate_array(
             common_rules,
         )
         .await
-    {
-        assertion_failed |= error.assertion_failed;
-        validation_result
-            .match_evidence
-            .merge_from(*error.match_evidence);
-        validation_result.merge_from(error.local_evaluated_locations);
-        total_diagnostics.extend(error.diagnostics);
+        {
+            Ok(result) => mark_evaluated_items(&mut evaluated, &result),
+            Err(error) => {
+                assertion_failed |= error.assertion_failed;
+                mark_evaluated_items(&mut evaluated, &error.local_evaluated_locations);
+                validation_result
+                    .match_evidence
+                    .merge_from(*error.match_evidence);
+                total_diagnostics.extend(error.diagnostics);
+            }
+        }
+    }
+
+    let applicators_result = validate_adjacent_applicators(
+        array_value,
+        accessors,
+        array_schema.one_of.as_deref(),
+        array_schema.any_of.as_deref(),
+        array_schema.all_of.as_deref(),
+        array_schema.not.as_deref(),
+        current_schema,
+        schema_context,
+        comment_directives,
+        lint_rules.map(|rules| &rules.common),
+    )
+    .await;
+    match &applicators_result {
+        Ok(result) => mark_evaluated_items(&mut evaluated, result),
+        Err(error) => mark_evaluated_items(&mut evaluated, &error.local_evaluated_locations),
     }
 
     if let Some(prefix_items) = &array_schema.prefix_items {
@@ -389,7 +411,6 @@ async fn validate_array(
     if let Some(contains_schema) = contains_schema {
         let min_contains = array_schema.min_contains.unwrap_or(1);
         let max_contains = array_schema.max_contains;
-        let needs_full_count = max_contains.is_some() || has_unevaluated_items;
         let mut contains_evaluated = vec![false; array_value.values().len()];
 
         let mut match_count = 0usize;
@@ -406,9 +427,6 @@ async fn validate_array(
             if is_assertion_success(&result) {
                 contains_evaluated[index] = true;
                 match_count += 1;
-                if !needs_full_count && match_count >= min_contains {
-                    break;
-                }
             }
         }
 
@@ -743,22 +761,15 @@ async fn validate_array(
         })
     };
 
-    merge_validation_results(
-        base_result,
-        validate_adjacent_applicators(
-            array_value,
-            accessors,
-            array_schema.one_of.as_deref(),
-            array_schema.any_of.as_deref(),
-            array_schema.all_of.as_deref(),
-            array_schema.not.as_deref(),
-            current_schema,
-            schema_context,
-            comment_directives,
-            lint_rules.map(|rules| &rules.common),
-        )
-        .await,
-    )
+    merge_validation_results(base_result, applicators_result)
+}
+
+fn mark_evaluated_items(evaluated: &mut [bool], locations: &crate::Valid) {
+    for index in &locations.indices {
+        if let Some(evaluated) = evaluated.get_mut(*index) {
+            *evaluated = true;
+        }
+    }
 }
 
 async fn validate_array_without_schema(
-- 
2.43.0


From e01281bcd0d687c3ae1b3ddd4bbbea2ddd19fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 64/67] fix: dependencies evaluate properties only if their key
 is present

---
 crates/tombi-validator/src/validate/table.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 3049916..9013c97 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -1101,8 +1101,12 @@ fn collect_evaluated_properties_from_table_schema<'a>(
             }
         }
 
+        // A dependency only evaluates properties if its key is present.
         if let Some(dependencies) = &table_schema.dependencies {
             for (dependent_key, dependency) in dependencies {
+                if !table_value.contains_key(dependent_key) {
+                    continue;
+                }
                 result.mark_property(dependent_key.clone());
                 match dependency {
                     tombi_schema_store::Dependency::Property(required_keys) => {
@@ -1129,6 +1133,9 @@ fn collect_evaluated_properties_from_table_schema<'a>(
 
         if let Some(dependent_required) = &table_schema.dependent_required {
             for (dependent_key, required_keys) in dependent_required {
+                if !table_value.contains_key(dependent_key) {
+                    continue;
+                }
                 result.mark_property(dependent_key.clone());
                 for key in required_keys {
                     result.mark_property(key.clone());
@@ -1138,6 +1145,9 @@ fn collect_evaluated_properties_from_table_schema<'a>(
 
         if let Some(dependent_schemas) = &table_schema.dependent_schemas {
             for (dependent_key, schema_item) in dependent_schemas {
+                if !table_value.contains_key(dependent_key) {
+                    continue;
+                }
                 result.mark_property(dependent_key.clone());
                 result.merge_from(
                     collect_evaluated_properties_from_schema_item(
-- 
2.43.0


From e8b094a088c291ae24638b349f844ae5bedc3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 65/67] fix: a schema of unevaluatedProperties evaluates the
 properties it is applied to

---
 crates/tombi-validator/src/validate/table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/tombi-validator/src/validate/table.rs b/crates/tombi-validator/src/validate/table.rs
index 9013c97..5340140 100644
--- a/crates/tombi-validator/src/validate/table.rs
+++ b/crates/tombi-validator/src/validate/table.rs
@@ -161,6 +161,7 @@ async fn validate_table(
         .await
     };
     let evaluated_properties = &evaluated_locations.properties;
+    let mut newly_evaluated_properties = vec![];
 
     for (key, value) in table_value.key_values() {
         let key_rules = get_tombi_key_rules_and_diagnostics(key.comment_directives())
@@ -449,6 +450,8 @@ async fn validate_table(
                     .await
                     {
                         Ok(Some(unevaluated_schema)) => {
+                            // Adjacent outer applicators see the property as evaluated.
+                            newly_evaluated_properties.push(accessor_raw_text.clone());
                             if let Err(crate::Invalid {
                                 assertion_failed: child_assertion_failed,
                                 diagnostics,
@@ -987,6 +990,9 @@ async fn validate_table(
     let comment_directives = table_value
         .comment_directives()
         .map(|directives| directives.cloned().collect_vec());
+    for key in newly_evaluated_properties {
+        evaluated_locations.mark_property(key);
+    }
     evaluated_locations.match_evidence = match_evidence.clone();
     let base_result = if total_diagnostics.is_empty() && !assertion_failed {
         Ok(evaluated_locations)
-- 
2.43.0


From 0988f2cefad5c6605dbd5d0eec0b64f93e46b7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 66/67] fix: assertions next to an applicator hold in branches
 of anyOf and oneOf

---
 crates/tombi-validator/src/validate.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index 1f81a14..c01d66e 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -726,6 +726,26 @@ where
             .schema_visits
             .get_schema_view_cycle_guard(&resolved_schema.schema_view)?;
 
+        // Assertions next to an applicator hold in the branches of another applicator, too.
+        if matches!(
+            resolved_schema.schema_view.as_ref(),
+            tombi_schema_store::SchemaView::OneOf(_)
+                | tombi_schema_store::SchemaView::AnyOf(_)
+                | tombi_schema_store::SchemaView::AllOf(_)
+        ) && let Some(projected_schema) =
+            project_current_schema_for_value(value, Some(resolved_schema), schema_context)
+        {
+            return validate_resolved_schema(
+                value,
+                accessors,
+                &projected_schema,
+                schema_context,
+                comment_directives,
+                common_rules,
+            )
+            .await;
+        }
+
         match (value.value_type(), resolved_schema.schema_view.as_ref()) {
             (
                 tombi_document_tree::ValueType::Boolean,
-- 
2.43.0


From e3cc41ddb411740a5aa8707307adf255d024bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:39 +0000
Subject: [PATCH 67/67] fix: assertions next to an applicator hold in
 referenced schemas without a type

---
 .../src/schema/semantic_schema.rs             | 20 +++++++++++++++++++
 crates/tombi-validator/src/validate.rs        | 11 ++++++++++
 2 files changed, 31 insertions(+)

diff --git a/crates/tombi-schema-store/src/schema/semantic_schema.rs b/crates/tombi-schema-store/src/schema/semantic_schema.rs
index c45333f..20ea808 100644
--- a/crates/tombi-schema-store/src/schema/semantic_schema.rs
+++ b/crates/tombi-schema-store/src/schema/semantic_schema.rs
@@ -453,6 +453,26 @@ impl SemanticSchema {
         }
     }
 
+    /// The schema that a reference without sibling keywords stands for.
+    pub fn bare_reference_target(&self) -> Option<&Self> {
+        let Self::Composite(composite) = self else {
+            return None;
+        };
+        match composite.schemas.as_slice() {
+            [Self::Object(local), target]
+                if composite.kind == SemanticCompositeKind::AllOf
+                    && local.references.primary().is_some()
+                    && local.type_assertion.is_none()
+                    && local.assertions == GenericAssertions::default()
+                    && local.constraints == TypeConstraints::default()
+                    && local.applicators == SemanticApplicators::default() =>
+            {
+                Some(target.bare_reference_target().unwrap_or(target))
+            }
+            _ => None,
+        }
+    }
+
     pub fn has_references(&self) -> bool {
         match self {
             Self::Boolean(_) => false,
diff --git a/crates/tombi-validator/src/validate.rs b/crates/tombi-validator/src/validate.rs
index c01d66e..ef27078 100644
--- a/crates/tombi-validator/src/validate.rs
+++ b/crates/tombi-validator/src/validate.rs
@@ -183,6 +183,17 @@ pub fn project_current_schema_for_value(
         return None;
     }
 
+    let referenced_schema = current_schema
+        .semantic_schema
+        .as_deref()
+        .and_then(|schema| schema.bare_reference_target())
+        .map(|target| {
+            let mut referenced_schema = current_schema.clone();
+            referenced_schema.semantic_schema = Some(std::sync::Arc::new(target.clone()));
+            referenced_schema
+        });
+    let current_schema = referenced_schema.as_ref().unwrap_or(current_schema);
+
     let instance_type = tombi_schema_store::SchemaType::from_value_type(value.value_type())?;
     if matches!(
         current_schema.schema_view.as_ref(),
-- 
2.43.0

