From ece908f05ff0df842d9925cc10146974c4cb118c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:36 +0000
Subject: [PATCH 1/7] fix: do not panic on objects without elements and
 materials

An object that has neither elements nor a usemtl statement has an empty table
of material names, but a geometry entry for it was recorded all the same, and
looking up its material name panicked. Such an object has no geometries.
---
 src/obj.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index caaa91c..e3c2223 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1446,10 +1446,13 @@ impl<'a> Parser<'a> {
                         smoothing_group_index,
                     ));
 
-                    material_name_entry_table.push((
-                        (min_element_material_name_index, max_element_material_name_index),
-                        material_name_index,
-                    ));
+                    // An object without any elements or materials has no geometries.
+                    if !material_names.is_empty() {
+                        material_name_entry_table.push((
+                            (min_element_material_name_index, max_element_material_name_index),
+                            material_name_index,
+                        ));
+                    }
 
                     break;
                 }
-- 
2.43.0


From ddb9ded2626772dcf3b5bf6e94b25c37bcce4367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:36 +0000
Subject: [PATCH 2/7] fix: resolve negative indices relative to the end of the
 vertex list

A negative index -n refers to the n-th most recent vertex, but it was added to
the end of the list instead of being counted back from it, so every relative
reference was rejected and the most negative one overflowed.
---
 src/obj.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obj.rs b/src/obj.rs
index e3c2223..4f893d6 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -881,7 +881,7 @@ impl<'a> Parser<'a> {
     fn calculate_index(&self, value_range: (usize, usize), parsed_value: isize) -> Result<usize, ParseError> {
         let (min_value, max_value) = value_range;
         let actual_value = if parsed_value <= 0 {
-            max_value as isize - parsed_value
+            max_value as isize + parsed_value
         } else {
             parsed_value - 1
         };
-- 
2.43.0


From 3a85092bb67ab0486dfd7ef0729d4bf031b6a4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:36 +0000
Subject: [PATCH 3/7] fix: report invalid indices in lines and faces instead of
 dropping them

Any error in an index of a line or face was taken for the end of the
statement, so a malformed or out of range last index silently disappeared
from the element.
---
 src/obj.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/obj.rs b/src/obj.rs
index 4f893d6..874d0fa 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -972,9 +972,9 @@ impl<'a> Parser<'a> {
         normal_index_range: (usize, usize),
     ) -> Result<usize, ParseError> {
         let mut indices_parsed = 0;
-        while let Ok(vtn_index) =
-            self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)
-        {
+        while !matches!(self.peek(), None | Some("\n")) {
+            let vtn_index =
+                self.parse_vtn_index(vertex_index_range, texture_index_range, normal_index_range)?;
             vtn_indices.push(vtn_index);
             indices_parsed += 1;
         }
-- 
2.43.0


From 1f103bfc97e22c93e1428e9676ae778811ae79ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:36 +0000
Subject: [PATCH 4/7] fix: accept CRLF and CR line endings

The lexer recognizes a carriage return as a newline character, but it handed it
to the parsers as a token of its own that they do not recognize as a newline, so
files with CRLF line endings were rejected or got carriage returns as names.
---
 src/lexer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 9c252c7..9750591 100755
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -116,7 +116,11 @@ impl<'a> Lexer<'a> {
         match self.peek() {
             Some(&ch) if is_newline(ch) => {
                 self.advance();
-                self.stream.get(start_position..self.stream_position)
+                // A carriage return and line feed pair is a single line ending.
+                if ch == b'\r' && self.peek() == Some(&b'\n') {
+                    self.stream_position += 1;
+                }
+                Some(&b"\n"[..])
             }
             Some(_) => {
                 let skipped = self.skip_unless(|ch| is_whitespace_or_newline(ch) || ch == b'#');
-- 
2.43.0


From 7e1b745e4b7a23efc5b4e396f220adac63c95f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 5/7] fix: do not take a line end for a name

An `o`, `usemtl`, `newmtl` or texture map statement with nothing else on its
line got the newline as its name. Such statements, and `s`, now report that the
name is missing.
---
 src/mtl.rs | 18 ++++++++++++++++++
 src/obj.rs | 10 ++++++++--
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index 186a94b..f5c307c 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -292,6 +292,14 @@ impl<'a> Parser<'a> {
         Err(ParseError::new(self.line_number, kind, message))
     }
 
+    /// Construct the parse error for a statement with no name on its line.
+    fn missing_name<T>(&self) -> Result<T, ParseError> {
+        self.error(
+            ErrorKind::ErrorParsingMaterial,
+            "Expected a name but got the end of the line.".to_owned(),
+        )
+    }
+
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
         self.lexer.peek()
@@ -434,6 +442,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ka")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -451,6 +460,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Kd")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -468,6 +478,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ks")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -485,6 +496,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ke")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -506,6 +518,7 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -523,6 +536,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("disp")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -540,6 +554,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_d")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -557,6 +572,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("decal")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -574,6 +590,7 @@ impl<'a> Parser<'a> {
 
         self.expect_tag("map_Ns")?;
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(Some(st)),
             None => self.error(
                 ErrorKind::EndOfFile,
@@ -616,6 +633,7 @@ impl<'a> Parser<'a> {
         }
 
         match self.next() {
+            Some("\n") => self.missing_name(),
             Some(st) => Ok(st),
             None => self.error(
                 ErrorKind::EndOfFile,
diff --git a/src/obj.rs b/src/obj.rs
index 874d0fa..eb72a86 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -868,6 +868,12 @@ impl<'a> Parser<'a> {
         match self.peek() {
             Some("o") => {
                 self.expect_tag("o")?;
+                if let Some("\n") = self.peek() {
+                    return self.error(
+                        ErrorKind::ExpectedTagStatement,
+                        "Got an object declaration without an object name.".to_owned(),
+                    );
+                }
                 let object_name = self.next_string();
                 self.skip_one_or_more_newlines()?;
 
@@ -1163,7 +1169,7 @@ impl<'a> Parser<'a> {
         smoothing_groups: &mut Vec<SmoothingGroup>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("s")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|&name| name != "\n") {
             if name == "off" {
                 smoothing_groups.push(SmoothingGroup(0));
             } else if let Ok(number) = name.parse::<usize>() {
@@ -1194,7 +1200,7 @@ impl<'a> Parser<'a> {
         material_names: &mut Vec<Option<&'a str>>,
     ) -> Result<usize, ParseError> {
         self.expect_tag("usemtl")?;
-        if let Some(name) = self.next() {
+        if let Some(name) = self.next().filter(|&name| name != "\n") {
             material_names.push(Some(name));
         } else {
             return self.error(
-- 
2.43.0


From 10e59a2f300cc66f4d9f5ea19cc87b2b6126948c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 6/7] fix: report errors at the end of a line on that line

The line number advanced as soon as a newline token was consumed, so a statement
with a missing operand was reported one line too late.
---
 src/mtl.rs | 17 ++++++++++++++++-
 src/obj.rs | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/mtl.rs b/src/mtl.rs
index f5c307c..b91d858 100755
--- a/src/mtl.rs
+++ b/src/mtl.rs
@@ -276,6 +276,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// The underlying lexer that tokenizes the input stream.
     lexer: PeekableLexer<'a>,
+    /// Whether the most recently consumed token ended a line.
+    at_line_end: bool,
 }
 
 impl<'a> Parser<'a> {
@@ -284,6 +286,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -302,15 +305,27 @@ impl<'a> Parser<'a> {
 
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         self.lexer.peek()
     }
 
+    /// Move on to the next line if the last token consumed was a newline.
+    ///
+    /// A newline token still belongs to the line that it ends.
+    fn update_line_number(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         let token = self.lexer.next();
         if let Some(val) = token {
             if val == "\n" {
-                self.line_number += 1;
+                self.at_line_end = true;
             }
         }
 
diff --git a/src/obj.rs b/src/obj.rs
index eb72a86..f1e6b78 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -666,6 +666,8 @@ pub struct Parser<'a> {
     line_number: usize,
     /// the underlying lexer that generates tokens.
     lexer: PeekableLexer<'a>,
+    /// Whether the most recently consumed token ended a line.
+    at_line_end: bool,
 }
 
 /// Triangulate a polygon with a triangle fan.
@@ -701,6 +703,7 @@ impl<'a> Parser<'a> {
         Parser {
             line_number: 1,
             lexer: PeekableLexer::new(Lexer::new(input)),
+            at_line_end: false,
         }
     }
 
@@ -711,15 +714,27 @@ impl<'a> Parser<'a> {
 
     /// Peek at the currently held token without advancing the token stream.
     fn peek(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         self.lexer.peek()
     }
 
+    /// Move on to the next line if the last token consumed was a newline.
+    ///
+    /// A newline token still belongs to the line that it ends.
+    fn update_line_number(&mut self) {
+        if self.at_line_end {
+            self.line_number += 1;
+            self.at_line_end = false;
+        }
+    }
+
     /// Advance the token stream one step returning the currently held string.
     fn next(&mut self) -> Option<&'a str> {
+        self.update_line_number();
         let token = self.lexer.next();
         if let Some(val) = token {
             if val == "\n" {
-                self.line_number += 1;
+                self.at_line_end = true;
             }
         }
 
-- 
2.43.0


From 368311f5a35176e7af412c65cf44cb232e606574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:07 +0000
Subject: [PATCH 7/7] fix: put elements after a nameless group statement in the
 default group

A `g` statement without names before any other group selects the default group,
but after another group it left the elements that follow without any group.
---
 src/obj.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/obj.rs b/src/obj.rs
index f1e6b78..117eb68 100755
--- a/src/obj.rs
+++ b/src/obj.rs
@@ -1175,6 +1175,12 @@ impl<'a> Parser<'a> {
             }
         }
 
+        // The elements of a group statement without any names are in the default group.
+        if groups_parsed == 0 {
+            groups.push(Default::default());
+            groups_parsed += 1;
+        }
+
         Ok(groups_parsed)
     }
 
-- 
2.43.0

