From fc0e5dc196836eae537109da459d45834b3a8b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:50 +0000
Subject: [PATCH 01/40] fix: read token text by byte offsets, not by character
 counts

Ranges are byte offsets, but SourceRange::to_string took them as character
offsets, so every token after a multi-byte character had the wrong text.
---
 src/source_range.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/source_range.rs b/src/source_range.rs
index 8065669..b8b8dc8 100644
--- a/src/source_range.rs
+++ b/src/source_range.rs
@@ -1,5 +1,3 @@
-use substring::Substring;
-
 use super::parser::ParserRef;
 
 #[derive(Copy, Clone, Debug, PartialEq)]
@@ -18,11 +16,15 @@ impl SourceRange {
   }
 
   pub fn to_string<'a>(&self, parser: &ParserRef) -> String {
-    parser
-      .borrow()
-      .source
-      .substring(self.start, self.end)
-      .to_string()
+    let parser = parser.borrow();
+    let source = parser.source.as_str();
+
+    // Ranges are byte offsets into the source. Clamp to
+    // the source, so that any range has a (possibly empty) value.
+    let end = std::cmp::min(self.end, source.len());
+    let start = std::cmp::min(self.start, end);
+
+    source.get(start..end).unwrap_or("").to_string()
   }
 
   pub fn clone_with_len(&self, len: usize) -> Self {
-- 
2.43.0


From 2ad8c6ff13b2016dba59b4346b651ec1e79f8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:58 +0000
Subject: [PATCH 02/40] fix: scan sequences by character so that multi-byte
 text does not panic

---
 src/matchers/sequence.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/matchers/sequence.rs b/src/matchers/sequence.rs
index 97b7034..acd86d6 100644
--- a/src/matchers/sequence.rs
+++ b/src/matchers/sequence.rs
@@ -10,6 +10,15 @@ use crate::token::StandardToken;
 
 use super::fetch::{Fetchable, FetchableType};
 
+// Byte length of the character at the given offset, so
+// that scanning always stops on a character boundary
+fn next_char_len(source: &str, offset: usize) -> usize {
+  source[offset..]
+    .chars()
+    .next()
+    .map_or(1, |character| character.len_utf8())
+}
+
 pub struct SequencePattern<T>
 where
   T: Fetchable,
@@ -215,12 +224,12 @@ where
             parts.push(&source[previous_index..index]);
           }
 
-          index = source_range.end + 1;
-          previous_index = index - 1;
+          previous_index = source_range.end;
+          index = source_range.end + next_char_len(source, source_range.end);
 
           continue;
         } else {
-          index += 1;
+          index += next_char_len(source, index);
           continue;
         }
       }
-- 
2.43.0


From 5c6f51f801d243696a9fafaf9399b7cd6466fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:01 +0000
Subject: [PATCH 03/40] fix: keep debug output on a character boundary so debug
 mode does not panic

---
 src/parser_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser_context.rs b/src/parser_context.rs
index 9351bfd..49acddb 100644
--- a/src/parser_context.rs
+++ b/src/parser_context.rs
@@ -148,6 +148,10 @@ impl ParserContext {
       end_offset = self.offset.end;
     }
 
+    while !parser.source.is_char_boundary(end_offset) {
+      end_offset -= 1;
+    }
+
     parser.source[self.offset.start..end_offset].to_string()
   }
 
-- 
2.43.0


From 1eb6c2c9500f2af525fe69194c605b55d0481d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 04/40] fix: let a loop iterate up to its maximum

A loop over min..max ran max - min iterations, so {2,3} could never match
and {1,5} stopped after four.
---
 src/matchers/program.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index b310a30..2cf0063 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -170,8 +170,10 @@ impl ProgramPattern {
       Some(_) => true,
       None => false,
     };
+    // The start of the range is the minimum number of iterations, and the
+    // end is the maximum, so always count iterations starting from zero
     let iterate_range = match &self.iterate_range {
-      Some(range) => range.clone(),
+      Some(range) => (0..range.end),
       None => (0..1),
     };
     let mut iteration_result: Option<MatcherSuccess>;
-- 
2.43.0


From 0d7211ef6263811e08992fb1742f3cf39d8c6a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:50 +0000
Subject: [PATCH 05/40] fix: honour an inclusive end given as a loop range

---
 src/matchers/program.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 2cf0063..bc5b1cb 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -19,8 +19,10 @@ where
     range.start = *start;
   }
 
-  if let Bound::Excluded(end) = r.end_bound() {
-    range.end = *end;
+  // The end of the range is the maximum number of iterations
+  match r.end_bound() {
+    Bound::Included(end) | Bound::Excluded(end) => range.end = *end,
+    Bound::Unbounded => {}
   }
 
   range
-- 
2.43.0


From 4053b0461b16b6f7aab83dd036a49a16b124419e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:31 +0000
Subject: [PATCH 06/40] fix: stop a loop when an iteration consumes nothing

A loop whose body can succeed without consuming (an optional, for example)
never ended.
---
 src/matchers/program.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index bc5b1cb..5d45138 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -183,6 +183,7 @@ impl ProgramPattern {
 
     for _ in iterate_range {
       iteration_result = None;
+      let iteration_start = sub_context.borrow().offset.start;
 
       if sub_context.borrow().debug_mode_level() > 1 {
         println!("{{{}/Iterating}}", program_token.borrow().get_name());
@@ -553,6 +554,15 @@ impl ProgramPattern {
         None => {}
       }
 
+      // An iteration that consumed nothing would repeat forever without
+      // consuming anything, so any further iterations are already satisfied
+      if let Some(range) = &self.iterate_range {
+        if sub_context.borrow().offset.start == iteration_start {
+          loop_count = std::cmp::max(loop_count, range.start);
+          break;
+        }
+      }
+
       loop_count += 1;
     }
 
-- 
2.43.0


From 6184291061d4866dfb0646ea94523d92451bbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:46 +0000
Subject: [PATCH 07/40] fix: enforce the loop minimum, and accept zero matches
 when it is zero

When the body of a loop failed, the loop result ignored its range: {2,}
accepted a single match, and * failed instead of matching nothing.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 5d45138..666ec7c 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -341,7 +341,7 @@ impl ProgramPattern {
                       matched_range,
                       &self.iterate_range,
                       loop_count,
-                      false,
+                      true,
                     );
                   }
 
-- 
2.43.0


From f4397c88f2714f009ae1a0ffb58ad3e841ef58c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:49 +0000
Subject: [PATCH 08/40] fix: keep the position of an error recorded before
 anything else matched

The range of such an error was widened to the (still unset) start of the
program, giving a range that starts at usize::MAX.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 666ec7c..eb79320 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -682,7 +682,7 @@ fn add_token_to_children(
       let mut token = token.borrow_mut();
       let source_range = token.get_matched_range();
 
-      if source_range.start == source_range.end {
+      if source_range.start == source_range.end && matched_range.start != usize::MAX {
         let mut new_source_range = source_range.clone();
         new_source_range.start = matched_range.start;
 
-- 
2.43.0


From 649dc259852e9d226798026f81a73072ed940fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:52 +0000
Subject: [PATCH 09/40] fix: report a fatal error from the start of the
 enclosing program

Panic takes its range from the token being built, which always started at
zero, so every such error was reported from the first line of the source.
---
 src/matchers/program.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index eb79320..18ddbda 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -163,7 +163,7 @@ impl ProgramPattern {
     let program_token = StandardToken::new(
       &sub_context.borrow().parser,
       self.name.to_string(),
-      SourceRange::new_blank(),
+      SourceRange::new(start_offset, start_offset),
     );
     let mut children = Vec::<TokenRef>::with_capacity(self.patterns.len());
     let mut captured_range = SourceRange::new(usize::MAX, 0);
-- 
2.43.0


From 2439ff2a3c3c3b1d99394e394148c3a1c43a581f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:13 +0000
Subject: [PATCH 10/40] fix: resolve a script identifier assigned to another
 identifier

The reference was made to the text of the whole assignment, which never
names a matcher.
---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index b9166a4..1750e55 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -316,7 +316,7 @@ fn build_matcher_from_tokens(
       if value_name == "Identifier" {
         // Identifier is assigned to identifier...
         // so this is a reference
-        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_token.get_value().clone())));
+        scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(Ref!(_value.get_value().clone())));
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-- 
2.43.0


From 2761469821b4e2b5c38c46eb91647bf6abbbc66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:18 +0000
Subject: [PATCH 11/40] fix: fail to compile a script that has recorded syntax
 errors

They were collected, and then dropped.
---
 src/script/v1/parser.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 1750e55..03c3664 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -433,7 +433,15 @@ fn build_matcher_from_tokens(
   );
 
   match result {
-    Ok(_) => Ok((root_matcher, scope_context)),
+    Ok(_) => {
+      let parse_errors = parse_errors.into_inner();
+
+      if parse_errors.len() > 0 {
+        return Err(parse_errors);
+      }
+
+      Ok((root_matcher, scope_context))
+    }
     Err(error) => {
       if error.message != "" {
         let range = match &error.range {
-- 
2.43.0


From db59cb52aea43d27a0c52bce9f77ffd14c5616af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:22 +0000
Subject: [PATCH 12/40] fix: report an invalid regex or sequence in a script
 instead of panicking

---
 src/script/v1/parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 03c3664..f80137c 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -2,7 +2,10 @@ use std::{cell::RefCell, collections::HashMap, path::Path};
 
 use crate::{
   matcher::MatcherRef,
-  matchers::program::{MatchAction, ProgramPattern},
+  matchers::{
+    matches::MatchesPattern,
+    program::{MatchAction, ProgramPattern},
+  },
   parse_error::ParseError,
   parser::{Parser, ParserRef},
   parser_context::{ParserContext, ParserContextRef},
@@ -52,18 +55,21 @@ fn construct_matcher_from_inner_definition(
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
 
-    Ok(crate::Matches!(&value))
+    match regex::Regex::new(&value) {
+      Ok(regex) => Ok(MatchesPattern::new(regex)),
+      Err(error) => Err(error.to_string()),
+    }
   } else if matcher_token_name == "SequenceMatcher" {
     let start_pattern = matcher_token.get_children()[0].borrow();
     let end_pattern = matcher_token.get_children()[1].borrow();
     let escape_pattern = matcher_token.get_children()[2].borrow();
 
     if start_pattern.get_value().len() == 0 {
-      panic!("Sequence `start` pattern of \"\" makes no sense");
+      return Err("Sequence `start` pattern of \"\" makes no sense".to_string());
     }
 
     if end_pattern.get_value().len() == 0 {
-      panic!("Sequence `end` pattern of \"\" makes no sense");
+      return Err("Sequence `end` pattern of \"\" makes no sense".to_string());
     }
 
     Ok(crate::Sequence!(
-- 
2.43.0


From ee09dd810fbf29f035adb7cd9ee0cc30f1f2ced4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 13/40] fix: unescape script attribute values before setting
 them on tokens

---
 src/script/v1/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index f80137c..fed74a8 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -177,7 +177,7 @@ fn construct_matcher_from_pattern_definition(
         let child = child.borrow();
         let child_children = child.get_children();
         let key = child_children[0].borrow().get_captured_value().clone();
-        let value = child_children[1].borrow().get_captured_value().clone();
+        let value = child_children[1].borrow().get_value().clone();
 
         attributes.insert(key, value);
       }
-- 
2.43.0


From 9906d701fbabb5af6a23c3924d7584493d8d798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:48 +0000
Subject: [PATCH 14/40] fix: report a script or import that cannot be loaded
 instead of panicking

---
 src/script/v1/parser.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index fed74a8..3c702c6 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -350,7 +350,11 @@ fn build_matcher_from_tokens(
       let import_identifiers = import_identifiers.get_children();
       let path = _token.find_child("Path").unwrap().borrow().get_value().clone();
 
-      let full_path = Path::new(from_file).parent().unwrap().join(path).canonicalize().unwrap();
+      let full_path = Path::new(from_file).parent().unwrap().join(&path);
+      let full_path = match full_path.canonicalize() {
+        Ok(full_path) => full_path,
+        Err(error) => return Err(ParseError::new_with_range(&format!("Unable to import from '{}': {}", path, error), token.borrow().get_matched_range().clone())),
+      };
       let file_name = full_path.to_str().unwrap();
 
       let import_result = match compile_script_from_file_internal(file_name, flags) {
@@ -580,10 +584,17 @@ fn compile_script_from_file_internal(
   file_name: &str,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
+  let load_error = |error: std::io::Error| {
+    vec![ParseError::new(&format!(
+      "Unable to load script '{}': {}",
+      file_name, error
+    ))]
+  };
+
+  let full_path = Path::new(file_name).canonicalize().map_err(load_error)?;
   let full_file_name = full_path.to_str().unwrap();
 
-  let parser = Parser::new_from_file(full_file_name).unwrap();
+  let parser = Parser::new_from_file(full_file_name).map_err(load_error)?;
   compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
 }
 
@@ -591,11 +602,7 @@ pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  let full_path = Path::new(file_name).canonicalize().unwrap();
-  let full_file_name = full_path.to_str().unwrap();
-
-  let parser = Parser::new_from_file(full_file_name).unwrap();
-  match compile_script(parser, file_name.to_string(), Some(full_file_name), flags) {
+  match compile_script_from_file_internal(file_name, flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From def0c8fc23c51fc9acfe3493bb93a4ddc7af8659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:17 +0000
Subject: [PATCH 15/40] fix: report a circular import instead of overflowing
 the stack

---
 src/script/v1/parser.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 3c702c6..004891d 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -271,6 +271,7 @@ fn build_matcher_from_tokens(
   parser_context: ParserContextRef,
   name: String,
   from_file: Option<&str>,
+  importing: &Vec<String>,
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
   if root_token.borrow().get_name() != "Script" {
@@ -357,7 +358,11 @@ fn build_matcher_from_tokens(
       };
       let file_name = full_path.to_str().unwrap();
 
-      let import_result = match compile_script_from_file_internal(file_name, flags) {
+      if importing.iter().any(|importing_file| importing_file == file_name) {
+        return Err(ParseError::new_with_range(&format!("Unable to import from '{}': Circular import", path), token.borrow().get_matched_range().clone()));
+      }
+
+      let import_result = match compile_script_from_file_internal(file_name, importing, flags) {
         Ok(result) => result,
         Err(errors) => {
           let mut _parse_errors = parse_errors.borrow_mut();
@@ -509,6 +514,18 @@ pub fn compile_script(
   name: String,
   from_file: Option<&str>,
   flags: u32,
+) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  compile_script_internal(parser, name, from_file, &Vec::new(), flags)
+}
+
+// `importing` are the files that are already being
+// compiled, which means they can not be imported again
+fn compile_script_internal(
+  parser: ParserRef,
+  name: String,
+  from_file: Option<&str>,
+  importing: &Vec<String>,
+  flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let parser_context = ParserContext::new(&parser, &name);
 
@@ -527,6 +544,7 @@ pub fn compile_script(
         parser_context.clone(),
         name,
         from_file,
+        importing,
         flags,
       ) {
         Ok(result) => {
@@ -582,6 +600,7 @@ pub fn compile_script_from_str(
 
 fn compile_script_from_file_internal(
   file_name: &str,
+  importing: &Vec<String>,
   flags: u32,
 ) -> Result<(ParserContextRef, MatcherRef, ScopeContextRef), Vec<ParseError>> {
   let load_error = |error: std::io::Error| {
@@ -595,14 +614,23 @@ fn compile_script_from_file_internal(
   let full_file_name = full_path.to_str().unwrap();
 
   let parser = Parser::new_from_file(full_file_name).map_err(load_error)?;
-  compile_script(parser, file_name.to_string(), Some(full_file_name), flags)
+  let mut importing = importing.clone();
+  importing.push(full_file_name.to_string());
+
+  compile_script_internal(
+    parser,
+    file_name.to_string(),
+    Some(full_file_name),
+    &importing,
+    flags,
+  )
 }
 
 pub fn compile_script_from_file(
   file_name: &str,
   flags: u32,
 ) -> Result<MatcherRef, Vec<ParseError>> {
-  match compile_script_from_file_internal(file_name, flags) {
+  match compile_script_from_file_internal(file_name, &Vec::new(), flags) {
     Ok(result) => Ok(result.1),
     Err(errors) => Err(errors),
   }
-- 
2.43.0


From 246f002d3e3a1947393d66caed66f792a3c127ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:27 +0000
Subject: [PATCH 16/40] fix: keep a script definition bound to its name after
 its first use

The pattern inside of the definition registered itself under the name of
the definition when first executed, so later references lost the attributes,
modifiers, and repeat specifier.
---
 src/script/v1/parser.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 004891d..38ff799 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -135,6 +135,16 @@ fn construct_matcher_from_pattern_definition(
   token: TokenRef,
   name: &str,
   captured: bool,
+) -> Result<(MatcherRef, MatcherRef), String> {
+  construct_named_matcher_from_pattern_definition(parser_context, token, name, captured, false)
+}
+
+fn construct_named_matcher_from_pattern_definition(
+  parser_context: ParserContextRef,
+  token: TokenRef,
+  name: &str,
+  captured: bool,
+  is_assignment: bool,
 ) -> Result<(MatcherRef, MatcherRef), String> {
   let token = token.borrow();
   let token_name = token.get_name();
@@ -161,7 +171,23 @@ fn construct_matcher_from_pattern_definition(
     construct_matcher_from_inner_definition(parser_context.clone(), matcher_token.clone())?;
   let inner_matcher = matcher.clone();
 
-  if name != "" {
+  if is_assignment {
+    // Name the token, not the matcher. A named matcher registers itself when it
+    // is executed, and that would replace the assigned definition (which also
+    // has the attributes, modifiers, and repeat specifier).
+    let matcher_token = matcher_token.borrow();
+    let matcher_token_name = matcher_token.get_name();
+
+    if matcher_token_name != "CustomMatcher" && matcher_token_name != "SwitchMatcher" {
+      let token_name = name.to_string();
+
+      matcher = Map!(matcher.clone(), move |token, _, __| {
+        token.borrow_mut().set_name(&token_name);
+
+        TokenResult!(token.clone())
+      });
+    }
+  } else if name != "" {
     matcher.borrow_mut().set_name(name);
   }
 
@@ -327,7 +353,7 @@ fn build_matcher_from_tokens(
       } else if value_name == "PatternDefinition" {
         // This is a pattern definition, so turn it into
         // a matcher, and store it as a reference
-        match construct_matcher_from_pattern_definition(parser_context.clone(), value.clone(), &matcher_name, true) {
+        match construct_named_matcher_from_pattern_definition(parser_context.clone(), value.clone(), &matcher_name, true, true) {
           Ok(defined_matchers) => {
             scope_context.borrow_mut().set(&matcher_name, VariableType::Matcher(defined_matchers.0.clone()));
           },
-- 
2.43.0


From b2a02f0c2a1dc3e55822ff7729beca71546749b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 17/40] fix: leave a variable as it was when a Store fails

Before executing its pattern, Store registered itself as a matcher under the
name of the variable, clobbering a value stored earlier.
---
 src/matchers/store.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matchers/store.rs b/src/matchers/store.rs
index f4121db..505f827 100644
--- a/src/matchers/store.rs
+++ b/src/matchers/store.rs
@@ -79,6 +79,11 @@ impl StorePattern {
 }
 
 impl Matcher for StorePattern {
+  fn before_exec(&self, _: MatcherRef, _: ParserContextRef, _: ScopeContextRef) {
+    // The name is the name of the variable, which is only
+    // set on success, so don't register this matcher by name
+  }
+
   fn exec(
     &self,
     this_matcher: MatcherRef,
-- 
2.43.0


From 6988a152554a734e8fbc99a86c6fc25fbe266644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 18/40] fix: require the closing delimiter of a script program
 or switch

An unclosed '{' or '[' was accepted as if it had been closed.
---
 src/script/v1/matchers/program_matcher.rs | 13 +++----------
 src/script/v1/matchers/switch_matcher.rs  | 23 ++++-------------------
 2 files changed, 7 insertions(+), 29 deletions(-)

diff --git a/src/script/v1/matchers/program_matcher.rs b/src/script/v1/matchers/program_matcher.rs
index 243240f..6d7a085 100644
--- a/src/script/v1/matchers/program_matcher.rs
+++ b/src/script/v1/matchers/program_matcher.rs
@@ -7,17 +7,10 @@ macro_rules! ScriptProgramMatcher {
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
           $crate::ScriptPattern!(),
-          $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Optional!(
-              $crate::Program!(
-                $crate::Equals!("}"),
-                $crate::Break!(),
-              )
-            )
-          )
         )
-      )
+      ),
+      $crate::ScriptWSN0!(?),
+      $crate::Discard!($crate::Equals!("}")),
     )
   };
 }
diff --git a/src/script/v1/matchers/switch_matcher.rs b/src/script/v1/matchers/switch_matcher.rs
index 6cf3fd3..6a4bb06 100644
--- a/src/script/v1/matchers/switch_matcher.rs
+++ b/src/script/v1/matchers/switch_matcher.rs
@@ -6,27 +6,12 @@ macro_rules! ScriptSwitchMatcher {
       $crate::ProxyChildren!(
         $crate::Loop!(
           $crate::ScriptWSN0!(?),
-          $crate::Switch!(
-            $crate::Discard!(
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            ),
-            $crate::ScriptPattern!(),
-          ),
+          $crate::ScriptPattern!(),
           $crate::ScriptWSN0!(?),
-          $crate::Discard!(
-            $crate::Switch!(
-              $crate::Equals!("|"),
-              $crate::Program!(
-                $crate::Equals!("]"),
-                $crate::Break!(),
-              )
-            )
-          )
+          $crate::Discard!($crate::Equals!("|")),
         )
-      )
+      ),
+      $crate::Discard!($crate::Equals!("]")),
     )
   };
 }
-- 
2.43.0


From 8a54775acef5f7f976c1bd790218ef70117c8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 19/40] fix: fail to compile a script with text after its scope
 that is not a pattern

---
 src/script/v1/matchers/script.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index 4849081..aa250c7 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -22,6 +22,17 @@ macro_rules! Script {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
+        // Without a pattern scope, there must be nothing left to parse
+        if pattern_scope.is_none() && !_token.has_child("Error") {
+          let parser = _token.get_parser();
+          let end = _token.get_matched_range().end;
+          let source_end = parser.borrow().source.len();
+
+          if parser.borrow().source[end..].trim().len() > 0 {
+            return $crate::ErrorTokenResult!(context.clone(), "Syntax error. Expected a pattern definition", &SourceRange::new(end, source_end));
+          }
+        }
+
         $crate::TokenResult!(token.clone())
       }
     )
-- 
2.43.0


From 80feb3a83a9696cba7650c79d84adaee8575a332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 20/40] fix: report the syntax error of a script that has no
 usable scope

---
 src/script/v1/parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 38ff799..9e52631 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -300,6 +300,13 @@ fn build_matcher_from_tokens(
   importing: &Vec<String>,
   flags: u32,
 ) -> Result<(MatcherRef, ScopeContextRef), Vec<ParseError>> {
+  if let Some(error_message) = root_token.borrow().get_attribute("__message") {
+    return Err(vec![ParseError::new_with_range(
+      error_message,
+      root_token.borrow().get_matched_range().clone(),
+    )]);
+  }
+
   if root_token.borrow().get_name() != "Script" {
     return Err(vec![ParseError::new(
       "Expected provided token to be a `Script` token",
-- 
2.43.0


From 33b87738923aff8a9394f6c6da9436531f719333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:53 +0000
Subject: [PATCH 21/40] fix: report an empty regex in a script instead of
 matching its delimiters

---
 src/script/v1/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 9e52631..c40ccb2 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -47,7 +47,8 @@ fn construct_matcher_from_inner_definition(
   } else if matcher_token_name == "RegexMatcher" {
     let mut value: String = matcher_token.get_value().clone();
 
-    if value == "" {
+    // Without any parts, the token value is the delimiters
+    if value == "" || !matcher_token.has_child("Part") {
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
-- 
2.43.0


From 67eab522040e1702161b4b642225ff0c7b27e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 22/40] fix: allow an escaped slash in a script regex

It is the only way to write a slash outside of a character class, but the
escape was passed on to the regex, which rejects it.
---
 src/script/v1/parser.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index c40ccb2..290709b 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -29,6 +29,31 @@ lazy_static::lazy_static! {
 
 pub const FLAG_LOG_STDERR: u32 = 0x01;
 
+// An escaped "/" is how a script spells a slash inside of a
+// regex, but it isn't a valid escape sequence for the regex itself
+fn unescape_regex_delimiters(value: &str) -> String {
+  let mut result = String::with_capacity(value.len());
+  let mut characters = value.chars();
+
+  while let Some(character) = characters.next() {
+    if character != '\\' {
+      result.push(character);
+      continue;
+    }
+
+    match characters.next() {
+      Some('/') => result.push('/'),
+      Some(escaped) => {
+        result.push('\\');
+        result.push(escaped);
+      }
+      None => result.push('\\'),
+    }
+  }
+
+  result
+}
+
 fn construct_matcher_from_inner_definition(
   parser_context: ParserContextRef,
   matcher_token: TokenRef,
@@ -52,6 +77,8 @@ fn construct_matcher_from_inner_definition(
       return Err("Value can not be empty for a `Matches` pattern definition".to_string());
     }
 
+    value = unescape_regex_delimiters(&value);
+
     if let Some(flags) = matcher_token.find_child("Flags") {
       value = format!("(?{}){}", flags.borrow().get_captured_value(), value);
     }
-- 
2.43.0


From 8efe467da586535f153ae93c980dbac2907886b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 23/40] fix: record an error in a nested program without
 panicking

---
 src/matchers/program.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 18ddbda..35c49b3 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -641,6 +641,15 @@ fn finalize_program_token(
   Ok(MatcherSuccess::Token(program_token))
 }
 
+// Recording an error doesn't consume anything, so a token
+// that holds one is allowed to have a zero width
+fn contains_error(tokens: &Vec<TokenRef>) -> bool {
+  tokens.iter().any(|token| {
+    let token = token.borrow();
+    token.flags_enabled(IS_ERROR) || contains_error(&token.get_children())
+  })
+}
+
 fn add_token_to_children(
   program_token: &TokenRef,
   context: &ParserContextRef,
@@ -655,7 +664,7 @@ fn add_token_to_children(
     if !token.borrow().flags_enabled(IS_ERROR) {
       let token = token.borrow();
 
-      if assert_moving_forward && update_offsets {
+      if assert_moving_forward && update_offsets && !contains_error(&token.get_children()) {
         // Ensure that we are moving forward, and that the token doesn't have a zero width
         if token.get_matched_range().end == context.borrow().offset.start {
           if context.borrow().debug_mode_level() > 1 {
-- 
2.43.0


From fb033a342d0a17b6c8676af4729bc382fcb361f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:09 +0000
Subject: [PATCH 24/40] fix: continue after the whole match of flattened
 children, not after the last child

---
 src/matchers/program.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 35c49b3..fe55144 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -804,10 +804,6 @@ fn handle_extract_token(
   }
 
   if update_offsets && !should_discard {
-    context
-      .borrow_mut()
-      .set_start(token.get_matched_range().end);
-
     contain_source_range(captured_range, &token.get_captured_range());
     contain_source_range(matched_range, &token.get_matched_range());
   }
@@ -858,6 +854,14 @@ fn handle_extract_token(
       update_offsets && !should_discard,
     );
   }
+
+  // Adding a child moves the offset to the end of that child, so do
+  // this last: what was matched can extend beyond the last child
+  if update_offsets && !should_discard {
+    context
+      .borrow_mut()
+      .set_start(token.get_matched_range().end);
+  }
 }
 
 fn handle_skip(
-- 
2.43.0


From 5acd618ffd3460c37d9264dbb082971b91121716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 25/40] fix: fail a pin whose window is outside of the source
 instead of panicking

---
 src/matchers/pin.rs | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/matchers/pin.rs b/src/matchers/pin.rs
index a3b5f95..0ab4454 100644
--- a/src/matchers/pin.rs
+++ b/src/matchers/pin.rs
@@ -26,7 +26,8 @@ fn is_empty_offset(offset_str: &str) -> bool {
   }
 }
 
-fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
+// Returns `None` if the offset is before the start of the source
+fn parse_offset(start: usize, end: usize, offset_str: &str) -> Option<usize> {
   if !is_empty_offset(offset_str) {
     let prefix = &offset_str[0..1];
     let part: &str;
@@ -43,12 +44,12 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       Ok(offset) => {
         if has_prefix {
           if prefix == "-" {
-            start - offset
+            start.checked_sub(offset)
           } else {
-            start + offset
+            start.checked_add(offset)
           }
         } else {
-          offset
+          Some(offset)
         }
       }
       Err(err) => {
@@ -59,7 +60,7 @@ fn parse_offset(start: usize, end: usize, offset_str: &str) -> usize {
       }
     }
   } else {
-    end
+    Some(end)
   }
 }
 
@@ -335,21 +336,38 @@ where
     // Set start offset
     {
       let start_offset = sub_context.borrow().offset.start;
-      sub_context.borrow_mut().offset.start =
-        parse_offset(start_offset, start_offset, offset_value_parts[0]);
+
+      match parse_offset(start_offset, start_offset, offset_value_parts[0]) {
+        Some(offset) => sub_context.borrow_mut().offset.start = offset,
+        None => return Err(MatcherFailure::Fail),
+      }
     }
 
     // Set end offset (if specified)
     if offset_value_parts.len() > 1 {
       let start_offset = sub_context.borrow().offset.start;
       let end_offset = sub_context.borrow().offset.end;
-      sub_context.borrow_mut().offset.end =
-        parse_offset(start_offset, end_offset, offset_value_parts[1]);
+
+      match parse_offset(start_offset, end_offset, offset_value_parts[1]) {
+        Some(offset) => sub_context.borrow_mut().offset.end = offset,
+        None => return Err(MatcherFailure::Fail),
+      }
     }
 
     let start_offset = sub_context.borrow().offset.start;
     let end_offset = sub_context.borrow().offset.end;
 
+    // There is nothing to match against outside of the source
+    if let None = sub_context
+      .borrow()
+      .parser
+      .borrow()
+      .source
+      .get(start_offset..end_offset)
+    {
+      return Err(MatcherFailure::Fail);
+    }
+
     match &self.pattern {
       Some(matcher) => matcher
         .borrow()
-- 
2.43.0


From 57f7257805683f783c6f6269635a4ddd5424b5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:04 +0000
Subject: [PATCH 26/40] fix: do not consume a non-consuming matcher because it
 is being debugged

---
 src/matchers/debug.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/matchers/debug.rs b/src/matchers/debug.rs
index 5a8a567..b3c5e15 100644
--- a/src/matchers/debug.rs
+++ b/src/matchers/debug.rs
@@ -101,6 +101,14 @@ impl Matcher for DebugPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    // Debugging must not change how the matcher is handled
+    match self.matcher {
+      Some(ref matcher) => matcher.borrow().is_consuming(),
+      None => false,
+    }
+  }
+
   fn get_name(&self) -> &str {
     "Debug"
   }
-- 
2.43.0


From f290ce75014f72de575f7367f3700a5026fdca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 27/40] fix: allow whitespace before the end of a script header
 that is empty

---
 src/script/v1/matchers/adextopa_scope.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index c8f33d8..316058c 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -24,6 +24,7 @@ macro_rules! ScriptAdextopaScope {
             ),
           )
         ),
+        $crate::ScriptWSN0!(?),
         $crate::Discard!($crate::Equals!("-->")),
       ),
       |token, context, __| {
-- 
2.43.0


From a5ff6e4e6671fa5242a8f91c960a26edaa183bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:28 +0000
Subject: [PATCH 28/40] fix: do not ignore a second number without a separator
 in a script repeat range

---
 src/script/v1/matchers/repeat_range.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/script/v1/matchers/repeat_range.rs b/src/script/v1/matchers/repeat_range.rs
index 3a2c209..d404fda 100644
--- a/src/script/v1/matchers/repeat_range.rs
+++ b/src/script/v1/matchers/repeat_range.rs
@@ -6,9 +6,15 @@ macro_rules! ScriptRepeatRange {
       $crate::ScriptWS0!(?),
       $crate::Matches!("Minimum"; r"\d+"),
       $crate::ScriptWS0!(?),
-      $crate::Optional!($crate::Equals!("Seperator"; ",")),
-      $crate::ScriptWS0!(?),
-      $crate::Optional!($crate::Matches!("Maximum"; r"\d+")),
+      $crate::Optional!(
+        $crate::ProxyChildren!(
+          $crate::Program!(
+            $crate::Equals!("Seperator"; ","),
+            $crate::ScriptWS0!(?),
+            $crate::Optional!($crate::Matches!("Maximum"; r"\d+")),
+          )
+        )
+      ),
       $crate::ScriptWS0!(?),
       $crate::Discard!($crate::Equals!("}")),
     )
-- 
2.43.0


From e45be6a0561a28012825062614bfe98bc716cb6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:40 +0000
Subject: [PATCH 29/40] fix: reject a script attribute whose name is only an
 underscore

---
 src/script/v1/matchers/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/attribute.rs b/src/script/v1/matchers/attribute.rs
index cd07921..9615b76 100644
--- a/src/script/v1/matchers/attribute.rs
+++ b/src/script/v1/matchers/attribute.rs
@@ -11,7 +11,7 @@ macro_rules! ScriptAttribute {
       $crate::ScriptString!("Value"),
       $crate::Pin!("Pin", $crate::Fetch!("AttributeStartOffset.range");
         $crate::AssertIf!(
-          $crate::Matches!(r"_[\w+_]+"),
+          $crate::Matches!(r"_[\w+_]*"),
           "Attribute names can not start with an underscore"
         )
       )
-- 
2.43.0


From ef6702c0e1e2576419bc24004b76d81e51d32c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 30/40] fix: keep each name of a script root pattern that is
 imported more than once

---
 src/script/v1/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 290709b..0653a46 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -455,7 +455,13 @@ fn build_matcher_from_tokens(
             return Err(ParseError::new_with_range("Error root import '_' must be named using 'import {{ _ as Name }}'", identifier_token.borrow().get_matched_range().clone()));
           }
 
-          import_root_matcher.borrow_mut().set_name(&import_name);
+          // Each name gets a program of its own, because the root
+          // pattern can be imported under more than one name
+          let import_root_matcher = ProgramPattern::new_program_with_name(
+            import_root_matcher.borrow().get_children().unwrap_or_default(),
+            import_name.clone(),
+            MatchAction::Continue,
+          );
 
           // This should work all on its own, because this is the root pattern
           // and it implements its own scope when called
-- 
2.43.0


From 42df717576ec36d4ad22db8e9a21cd731ae51213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 31/40] fix: report the wrong version of a script instead of a
 missing scope

---
 src/script/v1/matchers/script.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/script.rs b/src/script/v1/matchers/script.rs
index aa250c7..0035e95 100644
--- a/src/script/v1/matchers/script.rs
+++ b/src/script/v1/matchers/script.rs
@@ -18,7 +18,8 @@ macro_rules! Script {
         let adextopa_scope = _token.find_child("AdextopaScope");
         let pattern_scope = _token.find_child("PatternScope");
 
-        if adextopa_scope.is_none() && pattern_scope.is_none() {
+        // When there are errors, then these say why there is no scope
+        if adextopa_scope.is_none() && pattern_scope.is_none() && !_token.has_child("Error") {
           return $crate::ErrorTokenResult!(context.clone(), "Nothing to parse. No scopes found.", &token.borrow().get_matched_range());
         }
 
-- 
2.43.0


From 12865e6b991a8907ec126ee1d5d3f449f5c0bcd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 32/40] fix: report the missing version of a script header
 without attributes

---
 src/script/v1/matchers/adextopa_scope.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/script/v1/matchers/adextopa_scope.rs b/src/script/v1/matchers/adextopa_scope.rs
index 316058c..867eb19 100644
--- a/src/script/v1/matchers/adextopa_scope.rs
+++ b/src/script/v1/matchers/adextopa_scope.rs
@@ -5,7 +5,14 @@ macro_rules! ScriptAdextopaScope {
       $crate::Program!("AdextopaScope";
         $crate::Discard!($crate::Matches!(r"<!--\[adextopa")),
         $crate::ScriptWS0!(?),
-        $crate::ScriptAttributes!(),
+        $crate::Switch!(
+          // Without any attributes there is no token to check the version of
+          $crate::Program!(
+            $crate::Pin!($crate::Equals!("]")),
+            $crate::Error!("Adextopa scope must have a 'version' attribute"),
+          ),
+          $crate::ScriptAttributes!(),
+        ),
         $crate::Discard!($crate::Equals!("]")),
         $crate::Pin!("EndOfScopeHeader";),
         $crate::Optional!(
-- 
2.43.0


From 9159429dc51120ba2a229a62ef4c2991b6c1106c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 33/40] fix: a Continue reaches the loop it names through
 programs and switches

---
 src/matchers/program.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index fe55144..576eb77 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -474,7 +474,7 @@ impl ProgramPattern {
                   );
                 }
 
-                return Ok(MatcherSuccess::Break((loop_name, data)));
+                return Ok(MatcherSuccess::Continue((loop_name, data)));
               }
               _ => {}
             }
@@ -535,7 +535,7 @@ impl ProgramPattern {
                 );
               }
 
-              return finalize_program_token(
+              match finalize_program_token(
                 program_token,
                 children,
                 captured_range,
@@ -543,7 +543,14 @@ impl ProgramPattern {
                 &self.iterate_range,
                 loop_count,
                 false,
-              );
+              ) {
+                Ok(final_token) => {
+                  return Ok(MatcherSuccess::Continue((loop_name, Box::new(final_token))));
+                }
+                Err(error) => {
+                  return Err(error);
+                }
+              }
             }
           }
           MatcherSuccess::Stop => {
-- 
2.43.0


From 68eae402c5ded1287df00cc3a5154c9e226590df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 34/40] fix: a matcher that answers with nothing does not crash
 a program

---
 src/matchers/program.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/matchers/program.rs b/src/matchers/program.rs
index 576eb77..41b5c95 100644
--- a/src/matchers/program.rs
+++ b/src/matchers/program.rs
@@ -299,6 +299,9 @@ impl ProgramPattern {
 
               continue;
             }
+            MatcherSuccess::None => {
+              continue;
+            }
             _ => {
               iteration_result = Some(success);
               break;
-- 
2.43.0


From 4a92245bbf6785e0d96944b2fcdfd8f07d3acd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 35/40] fix: the child of an ExpandRange token has that token
 for a parent

---
 src/matchers/expand_range.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index f1032fe..0448c76 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -46,6 +46,7 @@ impl ExpandRange {
             matched_range,
           );
 
+          token.borrow_mut().set_parent(Some(wrapper_token.clone()));
           wrapper_token.borrow_mut().add_child(token);
 
           Ok(MatcherSuccess::ProxyChildren(wrapper_token))
-- 
2.43.0


From 31b81c7713f6041a376620bb9a8adce16c5a1be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 36/40] fix: wrapping a pin does not make it move the cursor

---
 src/matchers/discard.rs        | 4 ++++
 src/matchers/expand_range.rs   | 4 ++++
 src/matchers/optional.rs       | 4 ++++
 src/matchers/proxy_children.rs | 4 ++++
 src/matchers/set_scope.rs      | 4 ++++
 src/matchers/store.rs          | 2 +-
 6 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 4e7322d..3f02191 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -166,6 +166,10 @@ impl Matcher for DiscardPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    self.matcher.borrow().is_consuming()
+  }
+
   fn get_name(&self) -> &str {
     "Discard"
   }
diff --git a/src/matchers/expand_range.rs b/src/matchers/expand_range.rs
index 0448c76..946c15b 100644
--- a/src/matchers/expand_range.rs
+++ b/src/matchers/expand_range.rs
@@ -78,6 +78,10 @@ impl Matcher for ExpandRange {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    self.matcher.borrow().is_consuming()
+  }
+
   fn get_name(&self) -> &str {
     "Catch"
   }
diff --git a/src/matchers/optional.rs b/src/matchers/optional.rs
index e5ebaab..68127dd 100644
--- a/src/matchers/optional.rs
+++ b/src/matchers/optional.rs
@@ -47,6 +47,10 @@ impl Matcher for OptionalPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    self.matcher.borrow().is_consuming()
+  }
+
   fn get_name(&self) -> &str {
     "Optional"
   }
diff --git a/src/matchers/proxy_children.rs b/src/matchers/proxy_children.rs
index 06d5e84..4679615 100644
--- a/src/matchers/proxy_children.rs
+++ b/src/matchers/proxy_children.rs
@@ -74,6 +74,10 @@ impl Matcher for ProxyChildrenPattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    self.matcher.borrow().is_consuming()
+  }
+
   fn has_custom_name(&self) -> bool {
     self.custom_name
   }
diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index a39c973..933d014 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -71,6 +71,10 @@ impl Matcher for SetScopePattern {
     result
   }
 
+  fn is_consuming(&self) -> bool {
+    self.matcher.borrow().is_consuming()
+  }
+
   fn get_name(&self) -> &str {
     "SetScope"
   }
diff --git a/src/matchers/store.rs b/src/matchers/store.rs
index 505f827..d79e13c 100644
--- a/src/matchers/store.rs
+++ b/src/matchers/store.rs
@@ -99,7 +99,7 @@ impl Matcher for StorePattern {
 
   fn is_consuming(&self) -> bool {
     match &self.pattern {
-      StorePatternType::Matcher(_) => true,
+      StorePatternType::Matcher(matcher) => matcher.borrow().is_consuming(),
       StorePatternType::String(_) => false,
     }
   }
-- 
2.43.0


From 1b4bd03e5821c12dc66adbe44a3f108199d81b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:35 +0000
Subject: [PATCH 37/40] fix: a scope inside of a given scope extends that scope
 instead of the context's

---
 src/matchers/set_scope.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/matchers/set_scope.rs b/src/matchers/set_scope.rs
index 933d014..c88aa38 100644
--- a/src/matchers/set_scope.rs
+++ b/src/matchers/set_scope.rs
@@ -29,16 +29,15 @@ impl SetScopePattern {
   fn _exec(
     &self,
     context: ParserContextRef,
-    _: ScopeContextRef,
+    current_scope: ScopeContextRef,
   ) -> Result<MatcherSuccess, MatcherFailure> {
     let scope = match &self.scope {
       Some(scope) => scope.clone(),
       None => {
         // Push a new scope onto the stack
-        let scope = Scope::new();
-        context.borrow().scope.borrow_mut().push(scope.clone());
+        current_scope.borrow_mut().push(Scope::new());
 
-        context.borrow().scope.clone()
+        current_scope.clone()
       }
     };
 
@@ -50,7 +49,7 @@ impl SetScopePattern {
 
     if self.scope.is_none() {
       // Pop scope from stack
-      context.borrow().scope.borrow_mut().pop();
+      current_scope.borrow_mut().pop();
     }
 
     result
-- 
2.43.0


From 8b270ae388d3d1b93f96f10abd3fb554cd2b1ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:28 +0000
Subject: [PATCH 38/40] fix: a script in a place whose name is not valid UTF-8
 is reported instead of panicking

---
 src/script/v1/parser.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/script/v1/parser.rs b/src/script/v1/parser.rs
index 0653a46..4a96e71 100644
--- a/src/script/v1/parser.rs
+++ b/src/script/v1/parser.rs
@@ -417,7 +417,10 @@ fn build_matcher_from_tokens(
         Ok(full_path) => full_path,
         Err(error) => return Err(ParseError::new_with_range(&format!("Unable to import from '{}': {}", path, error), token.borrow().get_matched_range().clone())),
       };
-      let file_name = full_path.to_str().unwrap();
+      let file_name = match full_path.to_str() {
+        Some(file_name) => file_name,
+        None => return Err(ParseError::new_with_range(&format!("Unable to import from '{}': The full path is not valid UTF-8", path), token.borrow().get_matched_range().clone())),
+      };
 
       if importing.iter().any(|importing_file| importing_file == file_name) {
         return Err(ParseError::new_with_range(&format!("Unable to import from '{}': Circular import", path), token.borrow().get_matched_range().clone()));
@@ -678,7 +681,15 @@ fn compile_script_from_file_internal(
   };
 
   let full_path = Path::new(file_name).canonicalize().map_err(load_error)?;
-  let full_file_name = full_path.to_str().unwrap();
+  let full_file_name = match full_path.to_str() {
+    Some(full_file_name) => full_file_name,
+    None => {
+      return Err(load_error(std::io::Error::new(
+        std::io::ErrorKind::InvalidInput,
+        "The full path is not valid UTF-8",
+      )))
+    }
+  };
 
   let parser = Parser::new_from_file(full_file_name).map_err(load_error)?;
   let mut importing = importing.clone();
-- 
2.43.0


From 51521716039f2291686e05c0aeebee8d3dd8cab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 39/40] fix: discarding a pattern that records an error
 elsewhere does not move the cursor there

---
 src/matchers/discard.rs | 19 -------------------
 1 file changed, 19 deletions(-)

diff --git a/src/matchers/discard.rs b/src/matchers/discard.rs
index 3f02191..bfd8ef3 100644
--- a/src/matchers/discard.rs
+++ b/src/matchers/discard.rs
@@ -102,25 +102,6 @@ fn collect_errors(error_token: TokenRef, walk_token: TokenRef) {
   if is_error {
     let mut error_token = error_token.borrow_mut();
     error_token.get_children_mut().push(walk_token.clone());
-
-    let walk_token = walk_token.borrow();
-    let walk_token_range = walk_token.get_matched_range();
-    let error_token_range = error_token.get_matched_range();
-    let mut new_start = error_token_range.start;
-    let mut new_end = error_token_range.end;
-
-    if new_start > walk_token_range.start {
-      new_start = walk_token_range.start;
-    }
-
-    if new_end < walk_token_range.end {
-      new_end = walk_token_range.end;
-    }
-
-    if new_start != error_token_range.start || new_end != error_token_range.end {
-      let new_source_range = SourceRange::new(new_start, new_end);
-      error_token.set_matched_range(new_source_range);
-    }
   }
 
   {
-- 
2.43.0


From 764a1940ad6171c2a1e231c80d5098667ad19df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:30 +0000
Subject: [PATCH 40/40] fix: proxying the children of a recorded error does not
 lose the error

---
 src/matchers/proxy_children.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/matchers/proxy_children.rs b/src/matchers/proxy_children.rs
index 4679615..c0a2433 100644
--- a/src/matchers/proxy_children.rs
+++ b/src/matchers/proxy_children.rs
@@ -1,6 +1,7 @@
 use crate::matcher::{Matcher, MatcherFailure, MatcherRef, MatcherSuccess};
 use crate::parser_context::ParserContextRef;
 use crate::scope_context::ScopeContextRef;
+use crate::token::{TokenRef, IS_ERROR};
 use std::cell::RefCell;
 use std::rc::Rc;
 
@@ -40,18 +41,18 @@ impl ProxyChildrenPattern {
     );
 
     match result {
-      Ok(MatcherSuccess::Token(token)) => Ok(MatcherSuccess::ProxyChildren(token.clone())),
+      Ok(MatcherSuccess::Token(token)) => Ok(proxy_children(token)),
       Ok(MatcherSuccess::Break((loop_name, value))) => match *value {
         MatcherSuccess::Token(token) => Ok(MatcherSuccess::Break((
           loop_name,
-          Box::new(MatcherSuccess::ProxyChildren(token.clone())),
+          Box::new(proxy_children(token)),
         ))),
         _ => Ok(MatcherSuccess::Break((loop_name, value))),
       },
       Ok(MatcherSuccess::Continue((loop_name, value))) => match *value {
         MatcherSuccess::Token(token) => Ok(MatcherSuccess::Continue((
           loop_name,
-          Box::new(MatcherSuccess::ProxyChildren(token.clone())),
+          Box::new(proxy_children(token)),
         ))),
         _ => Ok(MatcherSuccess::Continue((loop_name, value))),
       },
@@ -60,6 +61,15 @@ impl ProxyChildrenPattern {
   }
 }
 
+// A recorded error is never replaced by its children, or it would be lost
+fn proxy_children(token: TokenRef) -> MatcherSuccess {
+  if token.borrow().flags_enabled(IS_ERROR) {
+    return MatcherSuccess::Token(token);
+  }
+
+  MatcherSuccess::ProxyChildren(token)
+}
+
 impl Matcher for ProxyChildrenPattern {
   fn exec(
     &self,
-- 
2.43.0

