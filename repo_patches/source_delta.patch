From 811754cc3f57eb1f8e37badc77e56fb5ce1c1864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:41 +0000
Subject: [PATCH 01/66] fix: apply the changes of one didChange notification in
 order

The ranges of all changes were read against the original text and the changes
were applied from the end of the document, so a batch in which a change depends
on the previous one (or two inserts at the same place) gave a text different
from the editor's. A change that could not be applied left the previous ones in
place with a stale line index, and a full-text change was refused.
---
 crates/jarl-lsp/src/document.rs | 52 +++++++++++++--------------------
 1 file changed, 21 insertions(+), 31 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..cc018a3 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,25 +133,22 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
-        for change in changes {
-            let range = change.range.ok_or_else(|| {
-                anyhow!(
-                    "Full document replacement not supported - only incremental changes allowed"
-                )
-            })?;
-
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
+        // The changes of one notification apply one after the other: each range
+        // refers to the text left by the previous change. Work on a copy so that
+        // a change that can't be applied leaves the document as it was.
+        let mut updated = self.clone();
+
+        for (i, change) in changes.iter().enumerate() {
+            // Without a range, the text is the new content of the whole document.
+            let Some(range) = change.range else {
+                updated.content = change.text.clone();
+                updated.line_starts = Self::compute_line_starts(&updated.content);
+                continue;
+            };
+
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
 
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
             tracing::trace!(
                 "Processing incremental change {}: {}..{} -> '{}'",
                 i,
@@ -160,15 +157,6 @@ impl TextDocument {
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +165,14 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        updated.version = new_version;
+        *self = updated;
         Ok(())
     }
 
-- 
2.43.0


From d83e15d3b4d4373c3c88d719484e6c7a9740af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 02/66] fix: clamp UTF-8 positions to the line end and refuse
 positions inside a character

In UTF-8 mode a position past the end of a line was an error while the other
encodings (and the LSP specification) clamp it, and a position or offset inside
a multi-byte character led to a panic when the text was sliced.
---
 crates/jarl-lsp/src/document.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index cc018a3..a96697e 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -201,9 +201,11 @@ impl TextDocument {
 
         let offset = match encoding {
             PositionEncoding::UTF8 => {
-                if character > line_content.len() {
+                // Past the end of the line means the end of the line
+                let character = character.min(line_content.len());
+                if !line_content.is_char_boundary(character) {
                     return Err(anyhow!(
-                        "Character {} is out of bounds on line {}",
+                        "Character {} is in the middle of a character on line {}",
                         character,
                         line
                     ));
@@ -255,6 +257,10 @@ impl TextDocument {
             return Err(anyhow!("Offset {} is out of bounds", offset));
         }
 
+        if !self.content.is_char_boundary(offset) {
+            return Err(anyhow!("Offset {} is in the middle of a character", offset));
+        }
+
         // Binary search to find the line
         let line = match self.line_starts.binary_search(&offset) {
             Ok(line) => line,
-- 
2.43.0


From 46d2db7fb40f07f9408c57603d2611f3e520f6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/66] fix: report blanket suppressions with surrounding
 whitespace

---
 crates/jarl-core/src/directive.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/directive.rs b/crates/jarl-core/src/directive.rs
index 074159b..5581e74 100644
--- a/crates/jarl-core/src/directive.rs
+++ b/crates/jarl-core/src/directive.rs
@@ -138,7 +138,7 @@ pub fn parse_quarto_chunk_array_item(text: &str) -> Option<DirectiveParseResult>
 /// - `Some(BlanketSuppression)` - A blanket suppression was found (no rule specified)
 /// - `None` - Not a suppression comment at all
 pub fn parse_comment_directive(text: &str) -> Option<DirectiveParseResult> {
-    let text = text.trim_start();
+    let text = text.trim();
 
     // Detect the comment prefix.  The `#|` form is a Quarto YAML chunk option
     // and is only recognised for `jarl-ignore-chunk`; all other directives
@@ -212,7 +212,7 @@ pub fn parse_comment_directive(text: &str) -> Option<DirectiveParseResult> {
         }
         // `# jarl-ignore <rule>: <reason>`
         // If after_ignore starts with `:`, it's a blanket suppression (no rule name)
-        if after_ignore.starts_with(':') {
+        if after_ignore.trim_start().starts_with(':') {
             Some(DirectiveParseResult::BlanketSuppression)
         } else {
             match parse_rule_with_explanation(after_ignore) {
@@ -239,7 +239,7 @@ pub fn parse_comment_directive(text: &str) -> Option<DirectiveParseResult> {
     } else if let Some(after_chunk) = rest.strip_prefix("-chunk ") {
         // `#| jarl-ignore-chunk <rule>: <reason>` — suppresses the rule for
         // the entire chunk (chunk-wide semantics).
-        if after_chunk.starts_with(':') {
+        if after_chunk.trim_start().starts_with(':') {
             Some(DirectiveParseResult::BlanketSuppression)
         } else {
             match parse_rule_with_explanation(after_chunk) {
-- 
2.43.0


From a069d9c19127cb77d2c6ea3570529a4ea2387762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 04/66] fix: tell R chunks from other engines and skip what
 other chunks contain

---
 crates/jarl-core/src/rmd/extraction.rs | 32 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-core/src/rmd/extraction.rs b/crates/jarl-core/src/rmd/extraction.rs
index 85da990..0e07891 100644
--- a/crates/jarl-core/src/rmd/extraction.rs
+++ b/crates/jarl-core/src/rmd/extraction.rs
@@ -3,14 +3,14 @@
 use regex::Regex;
 use std::sync::LazyLock;
 
-/// Matches the opening fence of an executable R code chunk.
+/// Matches the opening fence of an executable code chunk.
 ///
-/// Captures group 1: the backtick sequence (e.g. "```").
-/// Accepts `{r}`, `{r label}`, `{r, options}`, etc.
+/// Captures group 1: the backtick sequence (e.g. "```"), and group 2: the
+/// engine name, e.g. "r" in `{r}`, `{r label}`, `{r, options}`, etc.
 /// Leading spaces or tabs are allowed to support indented chunks (e.g. inside
 /// list items).
 static OPEN_FENCE: LazyLock<Regex> =
-    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{[rR][^}]*\}").unwrap());
+    LazyLock::new(|| Regex::new(r"^[ \t]*(`{3,})\{([a-zA-Z0-9_]+)(?:[ \t,][^}]*)?\}").unwrap());
 
 /// An R code chunk extracted from an Rmd/Qmd document.
 #[derive(Debug)]
@@ -26,25 +26,28 @@ pub struct RCodeChunk {
 ///
 /// Only fenced chunks whose opening line matches ` ```{r...} ` (any number of
 /// backticks ≥ 3) are returned. Display-only ` ```r ` blocks and tilde-fenced
-/// blocks are skipped. The closing fence must use the same number of backticks
-/// as the opening fence.
+/// blocks are skipped, and so are chunks of other engines together with
+/// everything they contain. The closing fence must use the same number of
+/// backticks as the opening fence.
 pub fn extract_r_chunks(content: &str) -> Vec<RCodeChunk> {
     let mut chunks = Vec::new();
     let mut byte_offset: usize = 0;
 
-    // State: None = outside a chunk, Some((fence, code, start_byte)) = inside.
-    let mut current: Option<(String, String, usize)> = None;
+    // State: None = outside a chunk, Some((fence, is_r, code, start_byte)) = inside.
+    let mut current: Option<(String, bool, String, usize)> = None;
 
     for line in content.split_inclusive('\n') {
         let mut finished = false;
 
-        if let Some((fence, code, start_byte)) = current.as_mut() {
+        if let Some((fence, is_r, code, start_byte)) = current.as_mut() {
             if line.trim() == fence.as_str() {
                 // Closing fence found — emit the chunk.
-                chunks.push(RCodeChunk {
-                    code: std::mem::take(code),
-                    start_byte: *start_byte,
-                });
+                if *is_r {
+                    chunks.push(RCodeChunk {
+                        code: std::mem::take(code),
+                        start_byte: *start_byte,
+                    });
+                }
                 finished = true;
             } else {
                 code.push_str(line);
@@ -52,9 +55,10 @@ pub fn extract_r_chunks(content: &str) -> Vec<RCodeChunk> {
         } else if let Some(caps) = OPEN_FENCE.captures(line) {
             // Opening fence found — start a new chunk.
             let fence = caps.get(1).unwrap().as_str().to_string();
+            let is_r = matches!(caps.get(2).unwrap().as_str(), "r" | "R");
             // The chunk code starts immediately after this line.
             let chunk_start_byte = byte_offset + line.len();
-            current = Some((fence, String::new(), chunk_start_byte));
+            current = Some((fence, is_r, String::new(), chunk_start_byte));
         }
 
         if finished {
-- 
2.43.0


From c3bb435692723cb3fdeff38c67a591007b33772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:30 +0000
Subject: [PATCH 05/66] fix: read DESCRIPTION's R dependency without panicking
 and only as a lower bound

---
 crates/jarl-core/src/description.rs | 38 ++++++++++++++++-------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..9d0f49d 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -14,7 +14,7 @@ pub struct Description;
 impl Description {
     /// Extract R version requirements from the Depends field of a DESCRIPTION file
     ///
-    /// Returns a vector of version strings found in R dependencies.
+    /// Returns a vector of the lower version bounds found in R dependencies.
     /// Examples:
     /// - "Depends: R (>= 4.3.0)" -> ["4.3.0"]
     /// - "Depends: R" -> []
@@ -27,7 +27,6 @@ impl Description {
             .map(|deps| {
                 deps.split(',')
                     .map(|s| s.trim())
-                    .filter(|s| !s.is_empty() && s.starts_with("R "))
                     .filter_map(extract_version_from_dependency)
                     .collect::<Vec<String>>()
             })
@@ -37,23 +36,28 @@ impl Description {
     }
 }
 
-/// Extract version number from an R dependency string like "R (>= 4.3.0)"
+/// Extract the lower version bound from an R dependency string like
+/// "R (>= 4.3.0)". Returns `None` for other packages, for "R" without a
+/// version, and for bounds that are not lower bounds, such as "R (< 5.0.0)".
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
-    // Look for version requirement in parentheses
-    if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
-    {
-        let version_part = &dep[start + 1..end];
-        // Remove >= operator and extract just the version number
-        let version = version_part.replace(">=", "").trim().to_string();
-
-        if !version.is_empty() {
-            return Some(version);
-        }
+    let (version_part, _) = dep
+        .strip_prefix('R')?
+        .trim_start()
+        .strip_prefix('(')?
+        .split_once(')')?;
+    let version_part = version_part.trim();
+    let version = version_part
+        .strip_prefix(">=")
+        .or_else(|| version_part.strip_prefix("=="))
+        .or_else(|| version_part.strip_prefix('>'))
+        .unwrap_or(version_part)
+        .trim();
+
+    if version.starts_with(|c: char| c.is_ascii_digit()) {
+        Some(version.to_string())
+    } else {
+        None
     }
-
-    // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 5fc1966716750f701381dc5cca8acd9242c6a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:04 +0000
Subject: [PATCH 06/66] fix: browser and empty_assignment offer no fix

---
 crates/jarl-core/src/rule_set.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/rule_set.rs b/crates/jarl-core/src/rule_set.rs
index 3c8f479..26cdd93 100644
--- a/crates/jarl-core/src/rule_set.rs
+++ b/crates/jarl-core/src/rule_set.rs
@@ -266,7 +266,7 @@ declare_rules! {
         name: "browser",
         categories: [Corr],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     ClassEquals => {
@@ -315,7 +315,7 @@ declare_rules! {
         name: "empty_assignment",
         categories: [Read],
         default: Enabled,
-        fix: Safe,
+        fix: None,
         min_r_version: None,
     },
     EqualsNa => {
-- 
2.43.0


From e2c8ee4566a2b93e66b2e98e89a737407013bad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 07/66] fix: rule table lists outdated_suppression and the
 rules disabled by default

---
 docs/rules.qmd     | 6 +++---
 docs/using-jarl.md | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/docs/rules.qmd b/docs/rules.qmd
index 3e680df..b4ecbe0 100644
--- a/docs/rules.qmd
+++ b/docs/rules.qmd
@@ -89,11 +89,12 @@ dat <- as.data.frame(
     c("misplaced_file_suppression", "comments", "❌", ""),
     c("misplaced_suppression", "comments", "❌", ""),
     c("numeric_leading_zero", "readability", "✅", ""),
+    c("outdated_suppression", "comments", "❌", ""),
     c("outer_negation", "performance, readability", "✅", ""),
     c("redundant_equals", "readability", "✅", ""),
     c("redundant_ifelse", "correctness, performance, readability", "✅", ""),
     c("repeat", "readability", "✅", ""),
-    c("sample_int", "readability", "✅", ""),
+    c("sample_int", "readability", "✅", "Disabled by default"),
     c("seq", "suspicious", "✅", ""),
     c("seq2", "suspicious", "✅", ""),
     c("sort", "performance, readability", "✅", ""),
@@ -106,8 +107,7 @@ dat <- as.data.frame(
     c("unmatched_range_suppression", "comments", "❌", ""),
     c("unnecessary_nesting", "readability", "✅", "Disabled by default"),
     c("unreachable_code", "readability, suspicious", "❌", ""),
-    c("unused_function", "correctness", "❌", ""),
-    c("unused_suppression", "comments", "❌", ""),
+    c("unused_function", "correctness", "❌", "Disabled by default"),
     c("vector_logic", "performance", "❌", ""),
     c("which_grepl", "performance, readability", "✅", "")
   )
diff --git a/docs/using-jarl.md b/docs/using-jarl.md
index 040dfc2..c7483b3 100644
--- a/docs/using-jarl.md
+++ b/docs/using-jarl.md
@@ -260,7 +260,7 @@ The checks on suppression comments are listed below:
   }
   ```
 
-- `unused_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
+- `outdated_suppression`: reports comments that don't suppress any violations, meaning that they can be removed, e.g.,
   ```r
   # jarl-ignore any_is_na: <reason>
   x <- 1 + 1
-- 
2.43.0


From 4a72075bf333fb0bdfa59d363048d4da917c4204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:06 +0000
Subject: [PATCH 08/66] fix: place fixes by bytes and do not let them overlap

apply_fixes measured the growth of the text in characters although
ranges are in bytes, and took the old end of a fix, shifted twice, for
its new end. Fixes following a replacement in a text with non-ASCII
characters were written at wrong places (or panicked), and fixes nested
in one that grows were applied over it.
---
 crates/jarl-core/src/fix.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..1ba7c79 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -32,10 +32,15 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
+    // Ranges are in bytes, so lengths must be in bytes as well.
+    let old_length = old_content.len() as i32;
     let mut new_length = old_length;
 
     for fix in fixes {
+        if fix.to_skip {
+            continue;
+        }
+
         let mut start: i32 = fix.start.try_into().unwrap();
         let mut end: i32 = fix.end.try_into().unwrap();
 
@@ -57,8 +62,8 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         let end_usize = end as usize;
 
         new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_length = new_content.len() as i32;
+        last_modified_pos = start + fix.content.len() as i32;
     }
 
     (has_skipped_fixes, new_content)
-- 
2.43.0


From acac3c063b690eff3c27b5faa055f9818ea39758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:14 +0000
Subject: [PATCH 09/66] fix: report rows and columns from the text of the file

Line breaks were looked up in the text of the expression list, which
lacks what follows the last expression, so comments there were reported
on a wrong row, and columns counted bytes instead of characters.
---
 crates/jarl-core/src/check.rs |  6 ++--
 crates/jarl-core/src/utils.rs | 57 ++++++++---------------------------
 2 files changed, 15 insertions(+), 48 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..559a363 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,8 +211,7 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
-    let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
+    let diagnostics = compute_lints_location(diagnostics, contents);
 
     Ok(diagnostics)
 }
@@ -350,6 +349,5 @@ fn get_checks_rmd(contents: &str, file: &Path, config: &Config) -> Result<Vec<Di
             .unwrap_or(true)
     });
 
-    let loc_new_lines = crate::utils::find_new_lines_from_content(contents);
-    Ok(compute_lints_location(all_diagnostics, &loc_new_lines))
+    Ok(compute_lints_location(all_diagnostics, contents))
 }
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..bdd1724 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -27,30 +27,8 @@ macro_rules! unwrap_or_return_none {
     };
 }
 
-/// Find byte positions of newline characters in a string.
-///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
-pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
-    content.match_indices('\n').map(|(i, _)| i).collect()
-}
-
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
-/// Takes the start of the range of a Diagnostic and the indices for the new
-/// lines. Returns the (row, col) position of the Diagnostic in the file.
+/// Takes the start of the range of a Diagnostic and the content of the file.
+/// Returns the (row, col) position of the Diagnostic in the file.
 ///
 /// The row position is the 1 + the number of new line characters before the
 /// start of the range.
@@ -64,37 +42,28 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
 ///    column 0
 ///
 /// Note that the row position is 1-indexed but the column position is 0-indexed.
-pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
-    let new_lines_before = loc_new_lines
-        .iter()
-        .filter(|x| *x <= &start)
-        .collect::<Vec<&usize>>();
-    let n_new_lines = new_lines_before.len();
-    let last_new_line = match new_lines_before.last() {
-        Some(x) => **x,
-        None => 0_usize,
-    };
-
-    let col: usize = if last_new_line == 0 {
-        start
-    } else {
-        start - last_new_line - 1
+pub fn find_row_col(start: usize, contents: &str) -> (usize, usize) {
+    let before = &contents[..start];
+    let row = before.matches('\n').count() + 1;
+    let line_start = match before.rfind('\n') {
+        None | Some(0) => 0,
+        Some(x) => x + 1,
     };
-    let row: usize = n_new_lines + 1;
+    let col = before[line_start..].chars().count();
     (row, col)
 }
 
 /// Takes a vector of `Diagnostic`s, all of which come with a range, and convert
-/// this range into actual (row, col) location using the position of new lines.
+/// this range into actual (row, col) location in the file.
 pub fn compute_lints_location(
     diagnostics: Vec<Diagnostic>,
-    loc_new_lines: &[usize],
+    contents: &str,
 ) -> Vec<Diagnostic> {
     diagnostics
         .into_iter()
         .map(|mut diagnostic| {
             let start: usize = diagnostic.range.start().into();
-            let loc = find_row_col(start, loc_new_lines);
+            let loc = find_row_col(start, contents);
             diagnostic.location = Some(Location::new(loc.0, loc.1));
             diagnostic
         })
-- 
2.43.0


From dc142fd839007dac0fe20a79bdcc9654b169e906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 10/66] fix: match start and end suppression comments in file
 order

A second start comment for the same rule at the same nesting level
replaced the first one, which was then neither applied nor reported, and
comments before or after a braced expression were given the nesting
level of its contents. Collect the comments first, with the level they
are written at, and match them in the order of the file.
---
 crates/jarl-core/src/suppression.rs | 90 ++++++++++++++++++-----------
 1 file changed, 55 insertions(+), 35 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..dd37ee0 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -8,7 +8,7 @@ use biome_formatter::comments::{
     CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment,
 };
 use biome_rowan::{SyntaxTriviaPieceComments, TextRange};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashSet;
 
 use crate::diagnostic::Diagnostic;
 use crate::directive::{
@@ -122,9 +122,10 @@ pub struct ChunkSuppression {
 
 /// Intermediate state used during single-pass comment collection
 struct CommentCollector {
-    /// Track start positions per (rule, nesting_level) for building skip regions
-    /// Key: (rule, nesting_level), Value: (region_start_range, comment_range)
-    starts: HashMap<(Rule, usize), (TextRange, TextRange)>,
+    /// Start and end comments, with their nesting level and whether they are
+    /// start comments. They are matched at the end because comments aren't
+    /// visited in the order of the file.
+    range_comments: Vec<(TextRange, Rule, usize, bool)>,
     /// Completed skip regions
     skip_regions: Vec<SkipRegion>,
     /// Rules suppressed at file level
@@ -156,7 +157,7 @@ struct CommentCollector {
 impl CommentCollector {
     fn new() -> Self {
         Self {
-            starts: HashMap::new(),
+            range_comments: Vec::new(),
             skip_regions: Vec::new(),
             file_suppressions: Vec::new(),
             chunk_suppressions: Vec::new(),
@@ -245,10 +246,7 @@ impl SuppressionManager {
         let mut collector = CommentCollector::new();
         Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
 
-        // Any remaining starts without matching ends are unmatched
-        for ((_, _), (comment_range, _)) in collector.starts.drain() {
-            collector.unmatched_start_suppressions.push(comment_range);
-        }
+        Self::match_range_comments(&mut collector);
 
         let has_any_suppressions = !collector.skip_regions.is_empty()
             || !collector.file_suppressions.is_empty()
@@ -364,6 +362,14 @@ impl SuppressionManager {
             );
         }
 
+        // Comments before or after a braced expression are outside of its
+        // braces, only those it contains are one level deeper.
+        let nesting_level = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            nesting_level + 1
+        } else {
+            nesting_level
+        };
+
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -378,26 +384,51 @@ impl SuppressionManager {
         }
 
         // Recursively process children
-        // Increment nesting level when entering braced expressions (function bodies, etc.)
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                nesting_level + 1
-            } else {
-                nesting_level
-            };
             Self::collect_all_directives(
                 &child,
                 comments,
                 collector,
                 is_first,
                 source,
-                child_nesting,
+                nesting_level,
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
     }
 
+    /// Match every end comment with the last start comment before it that is
+    /// still open, for the same rule and at the same nesting level.
+    fn match_range_comments(collector: &mut CommentCollector) {
+        let mut range_comments = std::mem::take(&mut collector.range_comments);
+        range_comments.sort_by_key(|(range, ..)| range.start());
+
+        let mut open: Vec<(TextRange, Rule, usize)> = Vec::new();
+        for (comment_range, rule, level, is_start) in range_comments {
+            if is_start {
+                open.push((comment_range, rule, level));
+                continue;
+            }
+            match open.iter().rposition(|x| (x.1, x.2) == (rule, level)) {
+                Some(i) => {
+                    let (start_comment_range, ..) = open.remove(i);
+                    collector.skip_regions.push(SkipRegion {
+                        range: TextRange::new(start_comment_range.start(), comment_range.end()),
+                        rule,
+                        comment_range: start_comment_range,
+                    });
+                }
+                None => collector.unmatched_end_suppressions.push(comment_range),
+            }
+        }
+
+        // Any remaining starts without matching ends are unmatched
+        collector
+            .unmatched_start_suppressions
+            .extend(open.into_iter().map(|x| x.0));
+    }
+
     /// Check if a comment is on the same line as code (true end-of-line comment)
     /// Returns true if there's no newline between the start of the line and the comment
     fn is_same_line_as_code(comment_range: TextRange, source: &str) -> bool {
@@ -441,28 +472,17 @@ impl SuppressionManager {
                 collector.has_any_valid_directive = true;
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
-                        // Store with nesting level for proper matching
                         collector
-                            .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                            .range_comments
+                            .push((comment_range, rule, nesting_level, true));
                     }
                     LintDirective::IgnoreEnd(rule) => {
-                        // Only match with start at the same nesting level
-                        if let Some((start_comment_range, _)) =
-                            collector.starts.remove(&(rule, nesting_level))
-                        {
-                            collector.skip_regions.push(SkipRegion {
-                                range: TextRange::new(
-                                    start_comment_range.start(),
-                                    comment_range.end(),
-                                ),
-                                rule,
-                                comment_range: start_comment_range,
-                            });
-                        } else {
-                            // No matching start at this nesting level
-                            collector.unmatched_end_suppressions.push(comment_range);
-                        }
+                        collector.range_comments.push((
+                            comment_range,
+                            rule,
+                            nesting_level,
+                            false,
+                        ));
                     }
                     LintDirective::IgnoreChunk(_rule) => {
                         // The only valid form of jarl-ignore-chunk is the YAML array:
-- 
2.43.0


From e3618e9ee28650c3388c151c37ccc9d1e40a5be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:19 +0000
Subject: [PATCH 11/66] fix: report end-of-line suppression comments after an
 opening bracket

They are attached to the expression that follows, so they were applied
to it instead of being reported as misplaced.
---
 crates/jarl-core/src/suppression.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index dd37ee0..66bbf74 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -338,7 +338,7 @@ impl SuppressionManager {
                     node_range,
                     collector,
                     is_first_expression,
-                    false, // not trailing
+                    Self::is_same_line_as_code(comment_range, source),
                     nesting_level,
                 );
                 i += 1;
@@ -372,13 +372,14 @@ impl SuppressionManager {
 
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
+            let range = comment.piece().text_range();
             Self::process_comment(
                 comment.piece().text(),
-                comment.piece().text_range(),
+                range,
                 node_range,
                 collector,
                 false,
-                false, // not trailing
+                Self::is_same_line_as_code(range, source),
                 nesting_level,
             );
         }
-- 
2.43.0


From 80c41c2222a90d9ee60fc675360e947b1eff6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:17 +0000
Subject: [PATCH 12/66] fix: apply suppression comments to named arguments

A comment above a named argument was attached to its name only, so that
it didn't suppress anything in its value.
---
 crates/jarl-core/src/suppression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 66bbf74..f2ebff1 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -55,7 +55,8 @@ impl CommentStyle for RCommentStyle {
             || enclosing.kind() == RSyntaxKind::R_ARGUMENT_LIST
         {
             // Comment is inside function call arguments. Attach to the following
-            // argument's first child (the actual expression).
+            // argument (not to its first child, which is only its name when it
+            // has one).
             //
             // Example:
             // ```
@@ -67,9 +68,8 @@ impl CommentStyle for RCommentStyle {
             // ```
             if let Some(following) = comment.following_node()
                 && following.kind() == RSyntaxKind::R_ARGUMENT
-                && let Some(first_child) = following.first_child()
             {
-                return CommentPlacement::leading(first_child, comment);
+                return CommentPlacement::leading(following.clone(), comment);
             }
         }
 
-- 
2.43.0


From 3649c98903c1005c94ff624033f3dd76791acb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:01 +0000
Subject: [PATCH 13/66] fix: place file suppression comments relative to the
 first code

One inside the first expression, hence after code, was accepted, and one
in a file with only comments was reported as misplaced.
---
 crates/jarl-core/src/suppression.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index f2ebff1..5fdc4af 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -7,7 +7,7 @@ use air_r_syntax::{RLanguage, RSyntaxKind, RSyntaxNode};
 use biome_formatter::comments::{
     CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment,
 };
-use biome_rowan::{SyntaxTriviaPieceComments, TextRange};
+use biome_rowan::{SyntaxTriviaPieceComments, TextRange, TextSize};
 use std::collections::HashSet;
 
 use crate::diagnostic::Diagnostic;
@@ -244,7 +244,12 @@ impl SuppressionManager {
 
         // Single pass: collect all directive information at once
         let mut collector = CommentCollector::new();
-        Self::collect_all_directives(root, &comments, &mut collector, true, source, 0);
+        let first_code = root
+            .first_token()
+            .map_or(root.text_range().end(), |token| {
+                token.text_trimmed_range().start()
+            });
+        Self::collect_all_directives(root, &comments, &mut collector, first_code, source, 0);
 
         Self::match_range_comments(&mut collector);
 
@@ -277,13 +282,14 @@ impl SuppressionManager {
         node: &RSyntaxNode,
         comments: &Comments<RLanguage>,
         collector: &mut CommentCollector,
-        is_first_expression: bool,
+        first_code: TextSize,
         source: &str,
         nesting_level: usize,
     ) {
         let node_range = node.text_trimmed_range();
 
-        // Process leading comments (file suppressions only valid here).
+        // Process leading comments. File suppressions are only valid before
+        // any code.
         //
         // We iterate with an index so that when we encounter a Quarto YAML
         // array header (`#| jarl-ignore-chunk:`) we can look ahead and consume
@@ -337,7 +343,7 @@ impl SuppressionManager {
                     comment_range,
                     node_range,
                     collector,
-                    is_first_expression,
+                    comment_range.start() < first_code,
                     Self::is_same_line_as_code(comment_range, source),
                     nesting_level,
                 );
@@ -356,7 +362,7 @@ impl SuppressionManager {
                 range,
                 node_range,
                 collector,
-                false,
+                range.start() < first_code,
                 is_true_end_of_line,
                 nesting_level,
             );
@@ -378,24 +384,22 @@ impl SuppressionManager {
                 range,
                 node_range,
                 collector,
-                false,
+                range.start() < first_code,
                 Self::is_same_line_as_code(range, source),
                 nesting_level,
             );
         }
 
         // Recursively process children
-        let mut is_first = is_first_expression;
         for child in node.children() {
             Self::collect_all_directives(
                 &child,
                 comments,
                 collector,
-                is_first,
+                first_code,
                 source,
                 nesting_level,
             );
-            is_first = false; // Only the first child can have file-level suppressions
         }
     }
 
-- 
2.43.0


From b743c56cb64cd07c94f6d40b3990c2dba2176ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 14/66] fix: recognise chunk suppression arrays that no code
 follows

An array after the last expression of a chunk or block was reported as a
comment without a rule, and its items were ignored.
---
 crates/jarl-core/src/suppression.rs | 149 ++++++++++++++--------------
 1 file changed, 75 insertions(+), 74 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 5fdc4af..5682d5e 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -5,7 +5,7 @@
 
 use air_r_syntax::{RLanguage, RSyntaxKind, RSyntaxNode};
 use biome_formatter::comments::{
-    CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment,
+    CommentKind, CommentPlacement, CommentStyle, Comments, DecoratedComment, SourceComment,
 };
 use biome_rowan::{SyntaxTriviaPieceComments, TextRange, TextSize};
 use std::collections::HashSet;
@@ -244,11 +244,9 @@ impl SuppressionManager {
 
         // Single pass: collect all directive information at once
         let mut collector = CommentCollector::new();
-        let first_code = root
-            .first_token()
-            .map_or(root.text_range().end(), |token| {
-                token.text_trimmed_range().start()
-            });
+        let first_code = root.first_token().map_or(root.text_range().end(), |token| {
+            token.text_trimmed_range().start()
+        });
         Self::collect_all_directives(root, &comments, &mut collector, first_code, source, 0);
 
         Self::match_range_comments(&mut collector);
@@ -288,16 +286,71 @@ impl SuppressionManager {
     ) {
         let node_range = node.text_trimmed_range();
 
-        // Process leading comments. File suppressions are only valid before
-        // any code.
-        //
-        // We iterate with an index so that when we encounter a Quarto YAML
-        // array header (`#| jarl-ignore-chunk:`) we can look ahead and consume
-        // the subsequent list items (`#|   - rule: reason`) as a group.
-        let leading: Vec<_> = comments.leading_comments(node).iter().collect();
+        Self::process_comments(
+            comments.leading_comments(node),
+            node_range,
+            collector,
+            first_code,
+            source,
+            nesting_level,
+        );
+
+        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
+        Self::process_comments(
+            comments.trailing_comments(node),
+            node_range,
+            collector,
+            first_code,
+            source,
+            nesting_level,
+        );
+
+        // Comments before or after a braced expression are outside of its
+        // braces, only those it contains are one level deeper.
+        let nesting_level = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            nesting_level + 1
+        } else {
+            nesting_level
+        };
+
+        Self::process_comments(
+            comments.dangling_comments(node),
+            node_range,
+            collector,
+            first_code,
+            source,
+            nesting_level,
+        );
+
+        // Recursively process children
+        for child in node.children() {
+            Self::collect_all_directives(
+                &child,
+                comments,
+                collector,
+                first_code,
+                source,
+                nesting_level,
+            );
+        }
+    }
+
+    /// Process the leading, trailing, or dangling comments of a node.
+    ///
+    /// We iterate with an index so that when we encounter a Quarto YAML
+    /// array header (`#| jarl-ignore-chunk:`) we can look ahead and consume
+    /// the subsequent list items (`#|   - rule: reason`) as a group.
+    fn process_comments(
+        comments: &[SourceComment<RLanguage>],
+        node_range: TextRange,
+        collector: &mut CommentCollector,
+        first_code: TextSize,
+        source: &str,
+        nesting_level: usize,
+    ) {
         let mut i = 0;
-        while i < leading.len() {
-            let comment = &leading[i];
+        while i < comments.len() {
+            let comment = &comments[i];
             let text = comment.piece().text();
             let comment_range = comment.piece().text_range();
 
@@ -306,8 +359,8 @@ impl SuppressionManager {
                 let header_range = comment_range;
                 i += 1;
                 let mut found_any_item = false;
-                while i < leading.len() {
-                    let item = &leading[i];
+                while i < comments.len() {
+                    let item = &comments[i];
                     let item_text = item.piece().text();
                     let item_range = item.piece().text_range();
                     match parse_quarto_chunk_array_item(item_text) {
@@ -343,64 +396,15 @@ impl SuppressionManager {
                     comment_range,
                     node_range,
                     collector,
+                    // File suppressions are only valid before any code.
                     comment_range.start() < first_code,
+                    // Check if the comment is on the same line as code (true end-of-line).
                     Self::is_same_line_as_code(comment_range, source),
                     nesting_level,
                 );
                 i += 1;
             }
         }
-
-        // Process trailing comments (end-of-line comments)
-        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
-        // We need to check if the comment is actually on the same line as code (true end-of-line).
-        for comment in comments.trailing_comments(node) {
-            let range = comment.piece().text_range();
-            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                range.start() < first_code,
-                is_true_end_of_line,
-                nesting_level,
-            );
-        }
-
-        // Comments before or after a braced expression are outside of its
-        // braces, only those it contains are one level deeper.
-        let nesting_level = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-            nesting_level + 1
-        } else {
-            nesting_level
-        };
-
-        // Process dangling comments
-        for comment in comments.dangling_comments(node) {
-            let range = comment.piece().text_range();
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                range.start() < first_code,
-                Self::is_same_line_as_code(range, source),
-                nesting_level,
-            );
-        }
-
-        // Recursively process children
-        for child in node.children() {
-            Self::collect_all_directives(
-                &child,
-                comments,
-                collector,
-                first_code,
-                source,
-                nesting_level,
-            );
-        }
     }
 
     /// Match every end comment with the last start comment before it that is
@@ -482,12 +486,9 @@ impl SuppressionManager {
                             .push((comment_range, rule, nesting_level, true));
                     }
                     LintDirective::IgnoreEnd(rule) => {
-                        collector.range_comments.push((
-                            comment_range,
-                            rule,
-                            nesting_level,
-                            false,
-                        ));
+                        collector
+                            .range_comments
+                            .push((comment_range, rule, nesting_level, false));
                     }
                     LintDirective::IgnoreChunk(_rule) => {
                         // The only valid form of jarl-ignore-chunk is the YAML array:
-- 
2.43.0


From 6bb609788bb072ebfd69f9cc87b279801ce4a808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 15/66] fix: find the R version of the package that holds the
 file

---
 crates/jarl-core/src/config.rs  | 40 ++++++++++++++++-----------------
 crates/jarl-core/src/package.rs |  2 +-
 2 files changed, 20 insertions(+), 22 deletions(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..f5cca9c 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -1,6 +1,7 @@
 use crate::{
     description::Description,
     lints::all_rules_enabled_by_default,
+    package::find_package_root,
     rule_options::ResolvedRuleOptions,
     rule_set::{Category, Rule, RuleSet},
     settings::Settings,
@@ -515,29 +516,26 @@ fn determine_minimum_r_version(
         return Ok(Some(parse_r_version(version_string.clone())?));
     }
 
-    // Look for DESCRIPTION file in any of the project paths
-    // TODO: this seems wasteful but I don't have a good infrastructure for now
-    // for getting the common root of the paths.
-    for path in paths {
-        let desc_path = if path.is_dir() {
-            path.join("DESCRIPTION")
-        } else if let Some(parent) = path.parent() {
-            parent.join("DESCRIPTION")
-        } else {
-            continue;
-        };
+    Ok(paths.iter().find_map(|path| {
+        let description = fs::read(find_package_root(path)?.join("DESCRIPTION")).ok()?;
+        Description::get_depend_r_version(&String::from_utf8_lossy(&description))
+            .ok()?
+            .iter()
+            .filter_map(|version| parse_description_r_version(version))
+            .max()
+    }))
+}
 
-        if desc_path.exists() {
-            let desc = fs::read_to_string(&desc_path)?;
-            if let Ok(versions) = Description::get_depend_r_version(&desc)
-                && let Some(version_str) = versions.first()
-            {
-                return Ok(Some(parse_r_version(version_str.to_string())?));
-            }
-        }
-    }
+/// Parse an R version taken from a DESCRIPTION file. This accepts all the forms
+/// that R accepts there, e.g. "4", "4.1", "4.1.2", or "4.1-2".
+fn parse_description_r_version(version: &str) -> Option<(u32, u32, u32)> {
+    let parts = version
+        .split(['.', '-'])
+        .map(|part| part.parse::<u32>().ok())
+        .collect::<Option<Vec<u32>>>()?;
+    let part = |i: usize| parts.get(i).copied().unwrap_or(0);
 
-    Ok(None)
+    Some((part(0), part(1), part(2)))
 }
 
 /// Parse R version string in format "x.y" or "x.y.z" and return (major, minor, patch)
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..9f539e4 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -261,7 +261,7 @@ fn file_scope_from_path(path: &Path) -> FileScope {
 }
 
 /// Walk up from a file path to find the package root (directory containing DESCRIPTION).
-fn find_package_root(path: &Path) -> Option<PathBuf> {
+pub(crate) fn find_package_root(path: &Path) -> Option<PathBuf> {
     let mut dir = path.parent()?;
     loop {
         if dir.join("DESCRIPTION").exists() {
-- 
2.43.0


From 4690e94335d1ee34286e39710221052ad9ae9200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 16/66] fix: report violations whose fix is not applied, and
 honour --fix-only

---
 crates/jarl-core/src/check.rs     |  7 ++++++-
 crates/jarl-core/src/config.rs    | 33 ++++++++-----------------------
 crates/jarl/src/commands/check.rs |  5 +++++
 3 files changed, 19 insertions(+), 26 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 559a363..0fd961c 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -103,7 +103,12 @@ pub fn lint_fix(
             break;
         }
 
-        let (new_has_skipped_fixes, fixed_text) = apply_fixes(&checks, &contents);
+        // Violations whose fix is unsafe are reported but not fixed by default.
+        let (fixable, leftover): (Vec<_>, Vec<_>) = checks.into_iter().partition(|x| {
+            config.apply_unsafe_fixes
+                || !Rule::from_name(&x.message.name).is_some_and(|rule| rule.has_unsafe_fix())
+        });
+        let (new_has_skipped_fixes, fixed_text) = apply_fixes(&fixable, &contents);
         has_skipped_fixes = new_has_skipped_fixes;
 
         fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index f5cca9c..cedf41e 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -58,11 +58,10 @@ pub struct Config {
     /// the user and/or recovered from the config file. Those will
     /// not necessarily all be used, for instance if we disable unsafe fixes.
     pub rules: RuleSet,
-    /// List of rules to use. If we lint only, then this is equivalent to the
-    /// field `rules`. If we apply fixes too, then this might be different from
-    /// `rules` because it may filter out rules that have unsafe fixes.
+    /// List of rules to use. This is equivalent to the field `rules`, except with
+    /// `--fix-only` since it filters out rules that don't have any fix.
     pub rules_to_apply: RuleSet,
-    /// Did the user pass the --fix flag?
+    /// Did the user pass the --fix flag, or the --fix-only flag that implies it?
     pub apply_fixes: bool,
     /// Did the user pass the --unsafe-fixes flag?
     pub apply_unsafe_fixes: bool,
@@ -107,32 +106,16 @@ pub fn build_config(
     // These will be stored in Config and checked when applying fixes.
     let (fixable_toml, unfixable_toml) = parse_fixable_toml(toml_settings)?;
 
-    // Resolve the interaction between --fix and --unsafe-fixes first. Using
-    // --unsafe-fixes implies using --fix, but the opposite is not true.
-    let rules_to_apply = match (check_config.fix, check_config.unsafe_fixes) {
-        (false, false) => rules.clone(),
-
-        (true, false) => rules
-            .iter()
-            .filter(|r| r.has_no_fix() || r.has_safe_fix())
-            .collect::<RuleSet>(),
-
-        (_, true) => rules
-            .iter()
-            .filter(|r| r.has_no_fix() || r.has_safe_fix() || r.has_unsafe_fix())
-            .collect::<RuleSet>(),
-    };
-
-    // We can now drop rules that don't have any fix if the user passed
-    // --fix-only. This could maybe be done above but dealing with the three
-    // args at the same time makes it much more complex.
+    // Drop rules that don't have any fix if the user passed --fix-only. In all
+    // other cases, violations that are not fixed must be reported, so rules are
+    // kept even if their fix is not applied.
     let rules_to_apply = if check_config.fix_only {
         rules
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
     } else {
-        rules_to_apply
+        rules.clone()
     };
 
     let mut rule_options = toml_settings
@@ -148,7 +131,7 @@ pub fn build_config(
         paths,
         rules,
         rules_to_apply,
-        apply_fixes: check_config.fix,
+        apply_fixes: check_config.fix || check_config.fix_only,
         apply_unsafe_fixes: check_config.unsafe_fixes,
         minimum_r_version,
         allow_dirty: check_config.allow_dirty,
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..c20f46e 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -134,6 +134,11 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
     }
 
+    // `--fix-only` doesn't report the violations that are left.
+    if args.fix_only {
+        all_diagnostics.clear();
+    }
+
     let (unused_fn_hidden, unused_fn_count) =
         hide_unused_function_if_needed(&mut all_diagnostics, &args, &resolver);
 
-- 
2.43.0


From 32c5ad95e2eec87f0480fc185e4d98d7b2171bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 17/66] fix: check version control for all files before fixing
 any

---
 crates/jarl-core/src/check.rs     | 28 +++++++++++++++++++++-------
 crates/jarl/src/commands/check.rs |  6 +++---
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 0fd961c..9a14a81 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -22,20 +22,34 @@ use crate::fix::*;
 use crate::utils::*;
 
 pub fn check(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    check_all(vec![config])
+}
 
+/// Check the files of several configurations.
+pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
     // Ensure that all paths are covered by VCS. This is conservative because
     // technically we could apply fixes on those that are covered by VCS and
     // error for the others, but I'd rather be on the safe side and force the
     // user to deal with that before applying any fixes.
-    if (config.apply_fixes || config.apply_unsafe_fixes) && !config.paths.is_empty() {
-        let path_strings: Vec<String> = config.paths.iter().map(relativize_path).collect();
-        if let Err(e) = check_version_control(&path_strings, &config) {
-            let first_path = path_strings.first().unwrap().clone();
-            return vec![(first_path, Err(e))];
-        }
+    // This has to be done for all configurations before applying any fixes since
+    // the files of several configurations may be in the same repository.
+    let path_strings: Vec<String> = configs
+        .iter()
+        .filter(|config| config.apply_fixes || config.apply_unsafe_fixes)
+        .flat_map(|config| config.paths.iter().map(relativize_path))
+        .collect();
+    if let (Some(first_path), Some(config)) = (path_strings.first(), configs.first())
+        && let Err(e) = check_version_control(&path_strings, config)
+    {
+        return vec![(first_path.clone(), Err(e))];
     }
 
+    configs.into_iter().flat_map(check_config).collect()
+}
+
+fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
+    let pkg = compute_package_analysis(&config.paths, &config);
+
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index c20f46e..2e83c2a 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -103,15 +103,15 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         groups.entry(key).or_default().push(path);
     }
 
-    let mut file_results = Vec::new();
+    let mut configs = Vec::new();
     for (dir_key, group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
             .map(|item| item.value());
-        let config = build_config(&check_config, settings, group_paths)?;
-        file_results.extend(jarl_core::check::check(config));
+        configs.push(build_config(&check_config, settings, group_paths)?);
     }
+    let file_results = jarl_core::check::check_all(configs);
 
     let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
-- 
2.43.0


From 7a5dcba67ade22feaaf36b1783896747449dd977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 18/66] fix: --allow-no-vcs does not allow fixes in dirty
 repositories

---
 crates/jarl-core/src/vcs.rs | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..a58a946 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -1,7 +1,7 @@
 use crate::config::Config;
 use anyhow::{Result, bail};
-use std::collections::HashMap;
-use std::path::Path;
+use std::collections::BTreeMap;
+use std::path::{Path, PathBuf};
 
 /// Check version control status once for multiple paths.
 ///
@@ -17,24 +17,15 @@ use std::path::Path;
 /// by grouping files per repo first. Then, we go through the repos to get the
 /// statuses (only once per repo).
 pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
-    if config.allow_no_vcs {
-        return Ok(());
-    }
-
     // Group paths by their repository root
-    let mut repo_to_paths: HashMap<String, Vec<String>> = HashMap::new();
+    let mut repo_to_paths: BTreeMap<PathBuf, Vec<String>> = BTreeMap::new();
     let mut paths_without_repo: Vec<String> = Vec::new();
 
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
                 // Get the repository root path as a key
-                let repo_path = repo
-                    .path()
-                    .parent()
-                    .and_then(|p| p.to_str())
-                    .unwrap_or("")
-                    .to_string();
+                let repo_path = repo.workdir().unwrap_or(repo.path()).to_path_buf();
                 repo_to_paths
                     .entry(repo_path)
                     .or_default()
@@ -47,7 +38,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     }
 
     // Check if any paths are not in a repo
-    if !paths_without_repo.is_empty() {
+    if !paths_without_repo.is_empty() && !config.allow_no_vcs {
         bail!(
             "`jarl check --fix` can potentially perform destructive changes but no \
             Version Control System (e.g. Git) was found on this project, so no fixes \
@@ -64,7 +55,7 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     let mut all_dirty_files = Vec::new();
 
     for (repo_path, _paths) in repo_to_paths {
-        let repo = git2::Repository::discover(Path::new(&repo_path))?;
+        let repo = git2::Repository::discover(&repo_path)?;
 
         let mut repo_opts = git2::StatusOptions::new();
         repo_opts.include_ignored(false);
-- 
2.43.0


From 832ee93ba40b3e942071093de120ed4f5423fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 19/66] fix: report files that cannot be checked with
 --statistics and --add-jarl-ignore

---
 crates/jarl/src/commands/check.rs | 21 ++++++++++++++++++---
 crates/jarl/src/output_format.rs  | 30 ++++++++++++++----------------
 crates/jarl/src/statistics.rs     |  5 ++++-
 3 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 2e83c2a..6ff9897 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -22,7 +22,9 @@ use std::path::PathBuf;
 use std::time::Instant;
 
 use crate::args::CheckCommand;
-use crate::output_format::{self, GithubEmitter, print_notes, print_summary, print_warnings};
+use crate::output_format::{
+    self, GithubEmitter, print_errors, print_notes, print_summary, print_warnings,
+};
 use crate::statistics::print_statistics;
 use crate::status::ExitStatus;
 
@@ -131,7 +133,13 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
-        return add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path);
+        print_errors(&all_errors);
+        let status = add_jarl_ignore_comments(&all_diagnostics, reason, parent_config_path)?;
+        return Ok(if all_errors.is_empty() {
+            status
+        } else {
+            ExitStatus::Error
+        });
     }
 
     // `--fix-only` doesn't report the violations that are left.
@@ -151,7 +159,14 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        print_errors(&all_errors);
+        let has_errors = !all_errors.is_empty();
+        let status = print_statistics(&all_diagnostics_flat, has_errors, parent_config_path)?;
+        return Ok(if has_errors {
+            ExitStatus::Error
+        } else {
+            status
+        });
     }
 
     let mut stdout = std::io::stdout();
diff --git a/crates/jarl/src/output_format.rs b/crates/jarl/src/output_format.rs
index fee4fd7..b910c06 100644
--- a/crates/jarl/src/output_format.rs
+++ b/crates/jarl/src/output_format.rs
@@ -83,6 +83,18 @@ pub fn print_summary(diagnostics: &[&Diagnostic], has_errors: bool) {
     }
 }
 
+/// Prints the files that could not be checked to stderr.
+pub fn print_errors(errors: &[(String, anyhow::Error)]) {
+    for (_path, err) in errors {
+        let root_cause = err.chain().last().unwrap();
+        if root_cause.is::<jarl_core::error::ParseError>() {
+            eprintln!("{}: {}", "Error".red().bold(), root_cause);
+        } else {
+            eprintln!("{}: {}", "Error".red().bold(), err);
+        }
+    }
+}
+
 /// Prints warnings under a `── Warnings ──` section header.
 pub fn print_warnings(warnings: &[String]) {
     if warnings.is_empty() {
@@ -158,14 +170,7 @@ impl Emitter for ConciseEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
         }
 
         // Cache relativized paths to avoid repeated filesystem operations
@@ -308,14 +313,7 @@ impl Emitter for FullEmitter {
         // First, print all parsing errors
         if !errors.is_empty() {
             writer.flush()?; // Flush before writing to stderr
-            for (_path, err) in errors {
-                let root_cause = err.chain().last().unwrap();
-                if root_cause.is::<jarl_core::error::ParseError>() {
-                    eprintln!("{}: {}", "Error".red().bold(), root_cause);
-                } else {
-                    eprintln!("{}: {}", "Error".red().bold(), err);
-                }
-            }
+            print_errors(errors);
             if !diagnostics.is_empty() {
                 eprintln!(); // Add separator between errors and diagnostics
             }
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 8d1345e..7e8aa76 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -6,10 +6,13 @@ use crate::status::ExitStatus;
 
 pub fn print_statistics(
     diagnostics: &[&Diagnostic],
+    has_errors: bool,
     parent_config_path: Option<PathBuf>,
 ) -> anyhow::Result<ExitStatus> {
     if diagnostics.is_empty() {
-        println!("All checks passed!");
+        if !has_errors {
+            println!("All checks passed!");
+        }
         return Ok(ExitStatus::Success);
     }
 
-- 
2.43.0


From 08c5831a219228f47a146541f133e5e54602ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 20/66] fix: report paths that cannot be read

---
 crates/jarl-core/src/discovery.rs |  9 +++++++++
 crates/jarl/src/commands/check.rs | 17 ++++++++++-------
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..a943246 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -354,6 +354,15 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// The path that could not be read, or an empty string if it is unknown.
+pub fn discovery_error_path(error: &ignore::Error) -> String {
+    match error {
+        ignore::Error::WithPath { path, .. } => fs::relativize_path(path),
+        ignore::Error::WithDepth { err, .. } => discovery_error_path(err),
+        _ => String::new(),
+    }
+}
+
 /// Shared state across the threads of the walker
 struct FilesState {
     files: std::sync::Mutex<DiscoveredFiles>,
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 6ff9897..ce0f5a1 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,5 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings};
+use jarl_core::discovery::{discover_r_file_paths, discover_settings, discovery_error_path};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -67,12 +67,16 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         resolver.add(&ds.directory, ds.settings);
     }
 
-    let paths = discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude)
-        .into_iter()
-        .filter_map(Result::ok)
-        .collect::<Vec<_>>();
+    let mut paths = Vec::new();
+    let mut all_errors = Vec::new();
+    for result in discover_r_file_paths(&args.files, &resolver, true, args.no_default_exclude) {
+        match result {
+            Ok(path) => paths.push(path),
+            Err(e) => all_errors.push((discovery_error_path(&e), e.into())),
+        }
+    }
 
-    if paths.is_empty() {
+    if paths.is_empty() && all_errors.is_empty() {
         println!(
             "{}: {}",
             "Warning".yellow().bold(),
@@ -115,7 +119,6 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     }
     let file_results = jarl_core::check::check_all(configs);
 
-    let mut all_errors = Vec::new();
     let mut all_diagnostics = Vec::new();
 
     for (path, result) in file_results {
-- 
2.43.0


From c624b6072176f93a34db715364ee15c40cfd934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 21/66] fix: check each file once and report in a fixed order

---
 crates/jarl-core/src/discovery.rs | 8 +++++++-
 crates/jarl/src/commands/check.rs | 6 ++++--
 crates/jarl/src/statistics.rs     | 3 +--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index a943246..893dddb 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -282,7 +282,13 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     let mut visitor_builder = FilesVisitorBuilder::new(&state);
     walker.visit(&mut visitor_builder);
 
-    let mut files = state.finish();
+    // Files are found in no particular order, and several times if `paths`
+    // overlap.
+    let (mut files, errors): (DiscoveredFiles, DiscoveredFiles) =
+        state.finish().into_iter().partition(Result::is_ok);
+    files.sort_by(|a, b| a.as_ref().ok().cmp(&b.as_ref().ok()));
+    files.dedup_by(|a, b| a.as_ref().ok() == b.as_ref().ok());
+    files.extend(errors);
 
     // Post-filter: apply per-config exclude and include patterns.
     //
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index ce0f5a1..6b71bec 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -16,7 +16,6 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
-use std::collections::HashMap;
 use std::env;
 use std::path::PathBuf;
 use std::time::Instant;
@@ -101,7 +100,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
 
     // Group paths by their closest resolved config directory, so each file is
     // checked with the settings from the nearest jarl.toml.
-    let mut groups: HashMap<Option<PathBuf>, Vec<PathBuf>> = HashMap::new();
+    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
         let key = resolver
             .resolve(&path)
@@ -134,6 +133,9 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         }
     }
 
+    // Errors come in the order in which files were discovered and checked.
+    all_errors.sort_by(|a, b| a.0.cmp(&b.0));
+
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
         print_errors(&all_errors);
diff --git a/crates/jarl/src/statistics.rs b/crates/jarl/src/statistics.rs
index 7e8aa76..37cab53 100644
--- a/crates/jarl/src/statistics.rs
+++ b/crates/jarl/src/statistics.rs
@@ -29,8 +29,7 @@ pub fn print_statistics(
     }
 
     let mut sorted: Vec<_> = hm.iter().collect();
-    sorted.sort_by_key(|a| a.1.0);
-    sorted.reverse();
+    sorted.sort_by_key(|(name, (count, _))| (std::cmp::Reverse(*count), *name));
 
     for (key, value) in sorted {
         let star = if value.1 { "*" } else { " " };
-- 
2.43.0


From e6a81da939a2dcc022ecf0b2b065bf196b534496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 22/66] fix: use the R version of each package

---
 crates/jarl-core/src/package.rs   |  2 +-
 crates/jarl/src/commands/check.rs | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 9f539e4..4ed8f3f 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -261,7 +261,7 @@ fn file_scope_from_path(path: &Path) -> FileScope {
 }
 
 /// Walk up from a file path to find the package root (directory containing DESCRIPTION).
-pub(crate) fn find_package_root(path: &Path) -> Option<PathBuf> {
+pub fn find_package_root(path: &Path) -> Option<PathBuf> {
     let mut dir = path.parent()?;
     loop {
         if dir.join("DESCRIPTION").exists() {
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 6b71bec..89f0c19 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -6,6 +6,7 @@ use jarl_core::{
     config::build_config,
     diagnostic::Diagnostic,
     fs::has_rmd_extension,
+    package::find_package_root,
     settings::Settings,
     suppression_edit::{
         create_suppression_edit, create_suppression_edit_in_rmd, format_suppression_comments,
@@ -99,17 +100,19 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     };
 
     // Group paths by their closest resolved config directory, so each file is
-    // checked with the settings from the nearest jarl.toml.
-    let mut groups: BTreeMap<Option<PathBuf>, Vec<PathBuf>> = BTreeMap::new();
+    // checked with the settings from the nearest jarl.toml, and by package since
+    // packages can depend on different versions of R.
+    let mut groups: BTreeMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
-        let key = resolver
+        let dir_key = resolver
             .resolve(&path)
             .map(|item| item.path().to_path_buf());
-        groups.entry(key).or_default().push(path);
+        let package_key = find_package_root(&path);
+        groups.entry((dir_key, package_key)).or_default().push(path);
     }
 
     let mut configs = Vec::new();
-    for (dir_key, group_paths) in groups {
+    for ((dir_key, _), group_paths) in groups {
         let settings = dir_key
             .as_deref()
             .and_then(|dir| resolver.items().iter().find(|item| item.path() == dir))
-- 
2.43.0


From c4f7d4c1bbf7c9d284911bf75721c11a058e5685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:20 +0000
Subject: [PATCH 23/66] fix: apply fixes until there is nothing left to fix

---
 crates/jarl-core/src/check.rs | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 9a14a81..ce2c8fb 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -91,6 +91,9 @@ pub fn lint_only(
     Ok(checks)
 }
 
+/// Maximum number of times a file is rewritten, in case fixes undo each other.
+const MAX_FIX_PASSES: usize = 100;
+
 pub fn lint_fix(
     path: &PathBuf,
     config: Arc<Config>,
@@ -103,32 +106,32 @@ pub fn lint_fix(
 
     let path = relativize_path(path);
 
-    let mut has_skipped_fixes = true;
-    let mut checks: Vec<Diagnostic>;
+    let mut n_passes = 0;
 
+    // Some fixes are skipped in the first pass because they overlap others, and
+    // applying a fix can reveal a new violation, so this goes on until there is
+    // nothing left to fix.
     loop {
         let contents = fs::read_to_string(Path::new(&path))
             .with_context(|| format!("Failed to read file: {path}",))?;
 
-        checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
+        let checks = get_checks(&contents, &PathBuf::from(&path), &config, &pkg)
             .with_context(|| format!("Failed to get checks for file: {path}",))?;
 
-        if !has_skipped_fixes {
-            break;
-        }
-
         // Violations whose fix is unsafe are reported but not fixed by default.
         let (fixable, leftover): (Vec<_>, Vec<_>) = checks.into_iter().partition(|x| {
             config.apply_unsafe_fixes
                 || !Rule::from_name(&x.message.name).is_some_and(|rule| rule.has_unsafe_fix())
         });
-        let (new_has_skipped_fixes, fixed_text) = apply_fixes(&fixable, &contents);
-        has_skipped_fixes = new_has_skipped_fixes;
+        let (_, fixed_text) = apply_fixes(&fixable, &contents);
+
+        if fixed_text == contents || n_passes == MAX_FIX_PASSES {
+            return Ok(fixable.into_iter().chain(leftover).collect());
+        }
+        n_passes += 1;
 
         fs::write(&path, fixed_text).with_context(|| format!("Failed to write file: {path}",))?;
     }
-
-    Ok(checks)
 }
 
 // Takes the R code as a string, parses it, and obtains a (possibly empty)
-- 
2.43.0


From 0d0127ff90914c28a3ff9f75b0db4ee4c3fe4f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:53 +0000
Subject: [PATCH 24/66] fix: check the expressions that calls, subsets and
 extractions apply to

---
 crates/jarl-core/src/analyze/expression.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/analyze/expression.rs b/crates/jarl-core/src/analyze/expression.rs
index 9a47607..48e6bbe 100644
--- a/crates/jarl-core/src/analyze/expression.rs
+++ b/crates/jarl-core/src/analyze/expression.rs
@@ -41,8 +41,11 @@ pub(crate) fn check_expression(
         AnyRExpression::RCall(children) => {
             analyze::call::call(children, checker)?;
 
-            if let Some(ns_expr) = children.function()?.as_r_namespace_expression() {
-                analyze::namespace_expression::namespace_expression(ns_expr, checker)?;
+            // The name of a function is not a variable, so identifiers are not
+            // checked.
+            let function = children.function()?;
+            if function.as_r_identifier().is_none() {
+                check_expression(&function, checker)?;
             }
 
             for arg in children.arguments()?.items() {
@@ -59,6 +62,9 @@ pub(crate) fn check_expression(
             check_expression(&sequence?, checker)?;
             check_expression(&body?, checker)?;
         }
+        AnyRExpression::RExtractExpression(children) => {
+            check_expression(&children.left()?, checker)?;
+        }
         AnyRExpression::RFunctionDefinition(children) => {
             analyze::function_definition::function_definition(children, checker)?;
             let params = children.parameters()?.items();
@@ -100,6 +106,7 @@ pub(crate) fn check_expression(
         }
         AnyRExpression::RSubset(children) => {
             analyze::subset::subset(children, checker)?;
+            check_expression(&children.function()?, checker)?;
 
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
@@ -108,6 +115,8 @@ pub(crate) fn check_expression(
             }
         }
         AnyRExpression::RSubset2(children) => {
+            check_expression(&children.function()?, checker)?;
+
             for arg in children.arguments()?.items() {
                 if let Some(expr) = arg?.value() {
                     check_expression(&expr, checker)?;
-- 
2.43.0


From 552d57e465369292288c85e0f2f9886e9b7942f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 25/66] fix: keep the comments inside of code that has comments
 around it too

---
 .../src/lints/base/assignment/assignment.rs        |  8 +++++++-
 crates/jarl-core/src/utils.rs                      | 14 +++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index fd7d501..76d9bae 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,6 +100,12 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
+    // The replacement keeps both sides as they are but not what is between them.
+    let has_comments_between = lhs.has_trailing_comments()
+        || operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || rhs.has_leading_comments();
+
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -108,7 +114,7 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: false,
+            to_skip: has_comments_between,
         },
     );
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index bdd1724..f8a033b 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -7,6 +7,7 @@ use air_r_syntax::{
 use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
+use biome_rowan::Direction;
 
 /// Macro to unwrap an Option or return Ok(None) early.
 ///
@@ -352,8 +353,8 @@ pub fn get_nested_functions_content(
 /// This is used to not provide a fix when comments are present to avoid
 /// destroying them.
 ///
-/// This returns `false` if the comment is leading or trailing because we want
-/// to catch cases like:
+/// Comments that are leading or trailing do not count because we want to catch
+/// cases like:
 /// ```r,ignore
 /// any(
 ///   # comment 1
@@ -371,7 +372,10 @@ pub fn get_nested_functions_content(
 /// any(is.na(x)) # comment 2
 /// ```
 pub fn node_contains_comments(node: &air_r_syntax::RSyntaxNode) -> bool {
-    (node.has_comments_direct() || node.has_comments_descendants())
-        && !node.has_trailing_comments()
-        && !node.has_leading_comments()
+    let first = node.first_token();
+    let last = node.last_token();
+    node.descendants_tokens(Direction::Next).any(|token| {
+        (token.has_leading_comments() && Some(&token) != first.as_ref())
+            || (token.has_trailing_comments() && Some(&token) != last.as_ref())
+    })
 }
-- 
2.43.0


From 30272b14698bb7f99ec0093932a4b6e7d7ad48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 26/66] fix: add the parentheses that replacements need

---
 crates/jarl-core/src/check.rs                 |   3 +
 crates/jarl-core/src/fix.rs                   | 152 ++++++++++++++++++
 .../src/lints/base/coalesce/coalesce.rs       |  13 +-
 crates/jarl-core/src/utils.rs                 |   5 +-
 4 files changed, 167 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index ce2c8fb..ed53c2a 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -229,6 +229,9 @@ pub fn get_checks(
             if x.fix.to_skip {
                 x.fix = Fix::empty();
             }
+            if !x.fix.content.is_empty() {
+                parenthesize_fix(&mut x.fix, syntax);
+            }
             x
         })
         .collect();
diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index 1ba7c79..92d9a78 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -1,4 +1,156 @@
 use crate::diagnostic::*;
+use air_r_parser::RParserOptions;
+use air_r_syntax::{AnyRExpression, RBinaryExpression, RSyntaxKind, RSyntaxNode, RUnaryExpression};
+use biome_rowan::{AstNode, NodeOrToken, TextRange, TextSize};
+
+/// How tightly a binary operator binds, see `?Syntax` in R.
+fn binary_strength(operator: &str) -> u8 {
+    match operator {
+        "?" => 1,
+        "=" => 2,
+        "<-" | "<<-" | ":=" => 3,
+        "->" | "->>" => 4,
+        "~" => 5,
+        "|" | "||" => 6,
+        "&" | "&&" => 7,
+        "==" | "!=" | "<" | ">" | "<=" | ">=" => 9,
+        "+" | "-" => 10,
+        "*" | "/" => 11,
+        ":" => 13,
+        "^" | "**" => 15,
+        // `|>` and `%any%`
+        _ => 12,
+    }
+}
+
+/// How tightly a unary operator binds.
+fn unary_strength(operator: &str) -> u8 {
+    match operator {
+        "?" => 1,
+        "~" => 5,
+        "!" => 8,
+        _ => 14,
+    }
+}
+
+/// Calls, values, parenthesized expressions, etc.
+const STRONGEST: u8 = 20;
+
+/// How tightly the operators that an expression shows to its right hold
+/// together: `a + !b` is as weak as `!`.
+fn strength(expr: &AnyRExpression) -> Option<u8> {
+    Some(match expr {
+        AnyRExpression::RBinaryExpression(x) => {
+            binary_strength(x.operator().ok()?.text_trimmed()).min(strength(&x.right().ok()?)?)
+        }
+        AnyRExpression::RUnaryExpression(x) => {
+            unary_strength(x.operator().ok()?.text_trimmed()).min(strength(&x.argument().ok()?)?)
+        }
+        AnyRExpression::RIfStatement(_)
+        | AnyRExpression::RForStatement(_)
+        | AnyRExpression::RWhileStatement(_)
+        | AnyRExpression::RRepeatStatement(_)
+        | AnyRExpression::RFunctionDefinition(_) => 0,
+        _ => STRONGEST,
+    })
+}
+
+/// The strength of some code, or `None` if it isn't a single expression.
+fn strength_of_code(code: &str) -> Option<u8> {
+    let parsed = air_r_parser::parse(code, RParserOptions::default());
+    if parsed.has_error() {
+        return None;
+    }
+    let mut expressions = parsed.tree().expressions().into_iter();
+    match (expressions.next(), expressions.next()) {
+        (Some(expr), None) => strength(&expr),
+        _ => None,
+    }
+}
+
+fn fits_operator(strength: u8, operator: &str, is_left: bool) -> bool {
+    let required = binary_strength(operator);
+    match operator {
+        // These can't be chained.
+        "==" | "!=" | "<" | ">" | "<=" | ">=" => strength > required,
+        // These group from right to left.
+        "=" | "<-" | "<<-" | ":=" | "^" | "**" if is_left => strength > required,
+        "=" | "<-" | "<<-" | ":=" | "^" | "**" => strength >= required,
+        _ if is_left => strength >= required,
+        _ => strength > required,
+    }
+}
+
+/// Returns the code, in parentheses if it needs them to be an operand of
+/// `operator`.
+pub fn as_operand(code: &str, operator: &str, is_left: bool) -> String {
+    match strength_of_code(code) {
+        Some(strength) if fits_operator(strength, operator, is_left) => code.to_string(),
+        _ => format!("({code})"),
+    }
+}
+
+/// Can code of this strength replace `node` without parentheses?
+fn fits_place(strength: u8, node: &RSyntaxNode) -> Option<bool> {
+    let parent = node.parent()?;
+    Some(match parent.kind() {
+        RSyntaxKind::R_BINARY_EXPRESSION => {
+            let parent = RBinaryExpression::cast(parent)?;
+            let is_left = parent.left().ok()?.syntax() == node;
+            fits_operator(strength, parent.operator().ok()?.text_trimmed(), is_left)
+        }
+        RSyntaxKind::R_UNARY_EXPRESSION => {
+            let parent = RUnaryExpression::cast(parent)?;
+            strength >= unary_strength(parent.operator().ok()?.text_trimmed())
+        }
+        RSyntaxKind::R_CALL
+        | RSyntaxKind::R_SUBSET
+        | RSyntaxKind::R_SUBSET2
+        | RSyntaxKind::R_EXTRACT_EXPRESSION
+        | RSyntaxKind::R_NAMESPACE_EXPRESSION => strength >= STRONGEST,
+        // `f((x = 1))` isn't the same as `f(x = 1)`, and `if (x = 1)` isn't
+        // valid.
+        RSyntaxKind::R_ARGUMENT | RSyntaxKind::R_PARAMETER_DEFAULT => strength != 2,
+        RSyntaxKind::R_IF_STATEMENT | RSyntaxKind::R_WHILE_STATEMENT if node.index() == 2 => {
+            strength != 2
+        }
+        RSyntaxKind::R_FOR_STATEMENT if node.index() == 4 => strength != 2,
+        _ => true,
+    })
+}
+
+/// If a fix replaces an expression, adds the parentheses that its content needs
+/// to be a single expression at this place. For instance, replacing
+/// `any(duplicated(x)) + 1` by `anyDuplicated(x) > 0 + 1` would change the
+/// meaning of the code.
+pub fn parenthesize_fix(fix: &mut Fix, root: &RSyntaxNode) {
+    let range = TextRange::new(
+        TextSize::from(fix.start as u32),
+        TextSize::from(fix.end as u32),
+    );
+    let innermost = match root.covering_element(range) {
+        NodeOrToken::Node(node) => Some(node),
+        NodeOrToken::Token(token) => token.parent(),
+    };
+    let Some(node) = innermost.and_then(|node| {
+        node.ancestors()
+            .take_while(|node| node.text_trimmed_range() == range)
+            .filter(|node| AnyRExpression::can_cast(node.kind()))
+            .last()
+    }) else {
+        return;
+    };
+    let fits = match strength_of_code(&fix.content) {
+        Some(strength) => fits_place(strength, &node).unwrap_or(true),
+        None => false,
+    };
+    if !fits {
+        let content = format!("({})", fix.content);
+        if strength_of_code(&content).is_some() {
+            fix.content = content;
+        }
+    }
+}
 
 /// Takes all diagnostics found in a given file and the content of this file,
 /// and applies automatic fixes.
diff --git a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
index 5a4a160..96da896 100644
--- a/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
+++ b/crates/jarl-core/src/lints/base/coalesce/coalesce.rs
@@ -1,4 +1,5 @@
 use crate::diagnostic::*;
+use crate::fix::as_operand;
 use crate::utils::{get_function_name, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstNodeList};
@@ -118,7 +119,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (is.null(x)) y else x` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), consequence_str);
+            fix_content = format!(
+                "{} %||% {}",
+                as_operand(&fn_body.to_trimmed_string(), "%||%", true),
+                as_operand(&consequence_str, "%||%", false)
+            );
         }
     }
 
@@ -164,7 +169,11 @@ pub fn coalesce(ast: &RIfStatement) -> anyhow::Result<Option<Diagnostic>> {
         msg = "`if (!is.null(x)) x else y` can be simplified.".to_string();
 
         if !skip_fix {
-            fix_content = format!("{} %||% {}", fn_body.to_trimmed_string(), alternative_str);
+            fix_content = format!(
+                "{} %||% {}",
+                as_operand(&fn_body.to_trimmed_string(), "%||%", true),
+                as_operand(&alternative_str, "%||%", false)
+            );
         }
     }
 
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index f8a033b..8ae5ee7 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -56,10 +56,7 @@ pub fn find_row_col(start: usize, contents: &str) -> (usize, usize) {
 
 /// Takes a vector of `Diagnostic`s, all of which come with a range, and convert
 /// this range into actual (row, col) location in the file.
-pub fn compute_lints_location(
-    diagnostics: Vec<Diagnostic>,
-    contents: &str,
-) -> Vec<Diagnostic> {
+pub fn compute_lints_location(diagnostics: Vec<Diagnostic>, contents: &str) -> Vec<Diagnostic> {
     diagnostics
         .into_iter()
         .map(|mut diagnostic| {
-- 
2.43.0


From 74ebc710e9630591054eb1ba405ef6178be4224c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 27/66] fix: outer_negation only concerns negations

---
 .../src/lints/base/outer_negation/outer_negation.rs    | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index c10a874..6ccbeed 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -54,8 +54,10 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arg_value = unwrap_or_return_none!(first_arg.value());
-    // Check if the argument is a unary expression (negation)
-    if arg_value.syntax().kind() != RSyntaxKind::R_UNARY_EXPRESSION {
+    // Check if the argument is a negation, and not another unary expression
+    // (e.g. `any(-x)`).
+    let unary = unwrap_or_return_none!(arg_value.as_r_unary_expression());
+    if unary.operator()?.kind() != RSyntaxKind::BANG {
         return Ok(None);
     }
 
@@ -68,10 +70,6 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let expr = unwrap_or_return_none!(negated_expr);
 
-    // It looks like the first (and only) child of R_UNARY_EXPRESSION is what
-    // comes after "!". So we don't need to check that this is indeed using the
-    // BANG operator because it's the only R_UNARY_EXPRESSION available.
-
     // Don't report consecutive unary expressions (e.g., `any(!!x)`)
     if expr.kind() == RSyntaxKind::R_UNARY_EXPRESSION {
         return Ok(None);
-- 
2.43.0


From b18b30f8eae0d41106514ee7b66bd539bc679110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:43 +0000
Subject: [PATCH 28/66] fix: do not drop the other arguments of nested calls

---
 crates/jarl-core/src/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 8ae5ee7..987b625 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -273,13 +273,15 @@ pub fn get_nested_functions_content(
     }
 
     // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_arg = arguments?
-        .items()
-        .into_iter()
-        .find(|x| x.clone().unwrap().name_clause().is_none());
+    let unnamed_args = get_unnamed_args(&arguments?.items());
+
+    // Other unnamed arguments would be lost (e.g. `any(is.na(x), y)`).
+    if unnamed_args.len() > 1 {
+        return Ok(None);
+    }
 
-    if let Some(arg) = unnamed_arg {
-        let value = arg?.value();
+    if let Some(arg) = unnamed_args.first() {
+        let value = arg.value();
         if let Some(inner) = value
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
@@ -295,6 +297,9 @@ pub fn get_nested_functions_content(
     }
 
     // Try piped cases. The call must be on the right side of a pipe binary expression.
+    if !unnamed_args.is_empty() {
+        return Ok(None);
+    }
     let parent_syntax = unwrap_or_return_none!(call.syntax().parent());
     let parent_binary = unwrap_or_return_none!(RBinaryExpression::cast(parent_syntax));
     let outer_syntax = parent_binary.syntax().clone();
-- 
2.43.0


From 6102d8603971c9a030c5d174ed1021f2fedfa1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 29/66] fix: keep comments around negations and chained
 assignments

---
 .../src/lints/base/all_equal/all_equal.rs     |  6 +++-
 .../src/lints/base/assignment/assignment.rs   | 34 +++++++++++++++----
 2 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
index 3da9ae1..99f9591 100644
--- a/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
+++ b/crates/jarl-core/src/lints/base/all_equal/all_equal.rs
@@ -88,8 +88,12 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let msg = "If `all.equal()` is false, it will return a string and not `FALSE`.".to_string();
     let mut range = ast.syntax().text_trimmed_range();
+    let mut outer_syntax = ast.syntax().clone();
 
     let fix_content = if ast.parent_is_bang_unary() {
+        if let Some(parent) = ast.syntax().parent() {
+            outer_syntax = parent;
+        }
         if let Some(prev) = ast.syntax().prev_sibling_or_token() {
             range = TextRange::new(prev.text_trimmed_range().start(), range.end())
         }
@@ -109,7 +113,7 @@ pub fn all_equal(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             content: fix_content,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: node_contains_comments(ast.syntax()),
+            to_skip: node_contains_comments(&outer_syntax),
         },
     );
 
diff --git a/crates/jarl-core/src/lints/base/assignment/assignment.rs b/crates/jarl-core/src/lints/base/assignment/assignment.rs
index 76d9bae..6515bfc 100644
--- a/crates/jarl-core/src/lints/base/assignment/assignment.rs
+++ b/crates/jarl-core/src/lints/base/assignment/assignment.rs
@@ -100,12 +100,6 @@ pub fn assignment(
         _ => unreachable!(),
     };
 
-    // The replacement keeps both sides as they are but not what is between them.
-    let has_comments_between = lhs.has_trailing_comments()
-        || operator.has_leading_comments()
-        || operator.has_trailing_comments()
-        || rhs.has_leading_comments();
-
     let range = ast.syntax().text_trimmed_range();
     let diagnostic = Diagnostic::new(
         ViolationData::new("assignment".to_string(), msg.to_string(), None),
@@ -114,9 +108,35 @@ pub fn assignment(
             content: replacement,
             start: range.start().into(),
             end: range.end().into(),
-            to_skip: has_comments_between,
+            to_skip: has_comments_around_operator(ast),
         },
     );
 
     Ok(Some(diagnostic))
 }
+
+/// The replacement keeps both sides as they are but not what is between them.
+///
+/// In `a = b = c`, replacing only the first operator would change the meaning,
+/// so it isn't replaced if the second one cannot be.
+fn has_comments_around_operator(ast: &RBinaryExpression) -> bool {
+    let RBinaryExpressionFields { left, operator, right } = ast.as_fields();
+    let (Ok(left), Ok(operator), Ok(right)) = (left, operator, right) else {
+        return true;
+    };
+
+    if left.syntax().has_trailing_comments()
+        || operator.has_leading_comments()
+        || operator.has_trailing_comments()
+        || right.syntax().has_leading_comments()
+    {
+        return true;
+    }
+
+    match right.as_r_binary_expression() {
+        Some(right) if matches!(right.operator(), Ok(x) if x.kind() == RSyntaxKind::EQUAL) => {
+            has_comments_around_operator(right)
+        }
+        _ => false,
+    }
+}
-- 
2.43.0


From 3cc07fca9057c2213ea580ee44796d8c84c7a0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:31 +0000
Subject: [PATCH 30/66] fix: is_numeric ignores the spaces around arguments,
 lengths needs an argument

---
 crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs | 6 +++---
 crates/jarl-core/src/lints/base/lengths/lengths.rs       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
index 98c7809..f7d2d5f 100644
--- a/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
+++ b/crates/jarl-core/src/lints/base/is_numeric/is_numeric.rs
@@ -76,8 +76,8 @@ pub fn is_numeric(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
 
     // Early return: LHS and RHS args are not the same (e.g.
     // `is.numeric(x) || is.integer(y)`).
-    let left_arg = arg_left.into_syntax().text_trimmed();
-    let right_arg = arg_right.into_syntax().text_trimmed();
+    let left_arg = arg_left.items().into_syntax().text_trimmed();
+    let right_arg = arg_right.items().into_syntax().text_trimmed();
     if left_arg != right_arg {
         return Ok(None);
     };
@@ -87,7 +87,7 @@ pub fn is_numeric(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnostic>>
         IsNumeric,
         range,
         Fix {
-            content: format!("is.numeric{left_arg}"),
+            content: format!("is.numeric({left_arg})"),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 90d2702..4d5c4d5 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -56,7 +56,7 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    let arg_x = get_arg_by_name_then_position(&arguments, "x", 1);
+    let arg_x = unwrap_or_return_none!(get_arg_by_name_then_position(&arguments, "x", 1));
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
 
     if let Some(arg_fun) = arg_fun
@@ -72,7 +72,7 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
             Lengths,
             range,
             Fix {
-                content: format!("lengths({})", arg_x.unwrap().into_syntax().text_trimmed()),
+                content: format!("lengths({})", arg_x.into_syntax().text_trimmed()),
                 start: range.start().into(),
                 end: range.end().into(),
                 to_skip: node_contains_comments(ast.syntax()),
-- 
2.43.0


From b2ab22bf83aed8dbc892aa024b228100a910267f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:46 +0000
Subject: [PATCH 31/66] fix: a configuration file that cannot be read is an
 error, not a panic

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From d4360b6c47987a3b3b604b810cfff9cf849a5491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:16 +0000
Subject: [PATCH 32/66] fix: apply the user-level configuration to files
 without a configuration file above them

---
 crates/jarl-core/src/discovery.rs | 24 ++++++++++++++++++++++++
 crates/jarl/src/commands/check.rs |  8 ++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 893dddb..7539ac7 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -91,6 +91,13 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
             }
         }
 
+        // The ancestor walk stops at ancestors shared with a previous path, whose
+        // config may apply to this path too.
+        found_config = found_config
+            || discovered_settings
+                .iter()
+                .any(|ds| path.starts_with(&ds.directory));
+
         // If no config found in ancestors, check user config directory as fallback
         if !found_config
             && let Some(ref config_dir) = user_config_dir
@@ -123,6 +130,23 @@ pub fn discover_settings<P: AsRef<Path>>(paths: &[P]) -> anyhow::Result<Vec<Disc
     Ok(discovered_settings)
 }
 
+/// Find the settings for `path` and the directory they come from: those of the
+/// closest directory above `path`, or the ones in the user config directory if
+/// there are none.
+pub fn resolve_settings<'a>(
+    resolver: &'a PathResolver<Settings>,
+    path: &Path,
+) -> Option<(&'a Path, &'a Settings)> {
+    let item = resolver.resolve(path).or_else(|| {
+        let user_config_dir = get_user_config_dir()?;
+        resolver
+            .items()
+            .iter()
+            .find(|item| item.path() == user_config_dir)
+    })?;
+    Some((item.path(), item.value()))
+}
+
 /// Walk down into `root`, collecting any nested `jarl.toml` files not yet in `already_found`.
 fn discover_nested_settings(
     root: &Path,
diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 89f0c19..e8e4013 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -1,5 +1,7 @@
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::{discover_r_file_paths, discover_settings, discovery_error_path};
+use jarl_core::discovery::{
+    discover_r_file_paths, discover_settings, discovery_error_path, resolve_settings,
+};
 use jarl_core::rule_set::Rule;
 use jarl_core::{
     config::ArgsConfig,
@@ -104,9 +106,7 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // packages can depend on different versions of R.
     let mut groups: BTreeMap<(Option<PathBuf>, Option<PathBuf>), Vec<PathBuf>> = BTreeMap::new();
     for path in paths {
-        let dir_key = resolver
-            .resolve(&path)
-            .map(|item| item.path().to_path_buf());
+        let dir_key = resolve_settings(&resolver, &path).map(|(dir, _)| dir.to_path_buf());
         let package_key = find_package_root(&path);
         groups.entry((dir_key, package_key)).or_default().push(path);
     }
-- 
2.43.0


From 77296e6af0d373df6de85ab2e8712cf5556f279c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:00 +0000
Subject: [PATCH 33/66] fix: exclude files and directories with the patterns of
 their own configuration

The exclude patterns of the first configuration found were applied to every
file of the walk, including those governed by another configuration, and the
default patterns of the other configurations were never applied.
---
 crates/jarl-core/src/discovery.rs | 196 ++++++++++++++++--------------
 1 file changed, 102 insertions(+), 94 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 7539ac7..98fc5de 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -5,6 +5,8 @@
 // MIT License - Posit PBC
 
 use ignore::DirEntry;
+use ignore::overrides::Override;
+use ignore::overrides::OverrideBuilder;
 use rustc_hash::FxHashSet;
 use std::path::Path;
 use std::path::PathBuf;
@@ -250,48 +252,6 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     builder.git_global(true);
     builder.git_exclude(true);
 
-    // Add exclude patterns from settings if linter settings should be used
-    if use_linter_settings {
-        // Build custom ignore patterns
-        let mut patterns = Vec::new();
-
-        // Default root directory if no settings found
-        let mut root = Path::new(".");
-
-        if let Some(settings_item) = resolver.items().first() {
-            let settings = settings_item.value();
-            root = settings_item.path();
-
-            // Add custom exclude patterns from jarl.toml
-            if let Some(exclude_patterns) = &settings.linter.exclude {
-                for pattern in exclude_patterns {
-                    patterns.push(pattern.as_str());
-                }
-            }
-            if settings.linter.default_exclude.unwrap_or(true) {
-                // Add default exclude patterns
-                patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-            }
-        } else if !no_default_exclude {
-            // Add default exclude patterns
-            patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-        }
-
-        // If we have patterns, create an override and add it to the builder
-        if !patterns.is_empty() {
-            let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-            for pattern in patterns {
-                // Add as negation pattern (exclude)
-                if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                    tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                }
-            }
-            if let Ok(overrides) = override_builder.build() {
-                builder.overrides(overrides);
-            }
-        }
-    }
-
     // Prefer `available_parallelism()`, with a max of 12 threads
     builder.threads(
         std::thread::available_parallelism()
@@ -301,8 +261,12 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
 
     let walker = builder.build_parallel();
 
+    // Directories and files are excluded while walking, so that we don't look
+    // into excluded directories.
+    let excluder = use_linter_settings.then(|| Excluder::new(resolver, no_default_exclude));
+
     // Run the `WalkParallel` to collect all R files.
-    let state = FilesState::new();
+    let state = FilesState::new(excluder);
     let mut visitor_builder = FilesVisitorBuilder::new(&state);
     walker.visit(&mut visitor_builder);
 
@@ -314,67 +278,30 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files.dedup_by(|a, b| a.as_ref().ok() == b.as_ref().ok());
     files.extend(errors);
 
-    // Post-filter: apply per-config exclude and include patterns.
-    //
-    // The WalkBuilder above only applies the first config's exclude patterns.
-    // When there are multiple configs (e.g. root jarl.toml + mypkg/jarl.toml),
-    // nested configs' exclude/include patterns must be enforced here by
-    // resolving each file to its nearest config.
+    // Post-filter: explicitly provided files must also respect the patterns of
+    // their config, and include patterns are only about files.
     if use_linter_settings {
         files.retain(|result| {
             let Ok(path) = result else {
                 return true;
             };
 
-            let Some(item) = resolver.resolve(path) else {
+            let Some((root, settings)) = resolve_settings(resolver, path) else {
                 return true;
             };
 
-            let settings = item.value();
-            let root = item.path();
-
-            // Exclude filter: remove files matching any exclude pattern
             if let Some(exclude_patterns) = &settings.linter.exclude
-                && !exclude_patterns.is_empty()
+                && matches_patterns(&build_patterns(root, exclude_patterns), root, path)
             {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in exclude_patterns {
-                    if let Err(e) = override_builder.add(&format!("!{pattern}")) {
-                        tracing::warn!("Failed to add exclude pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if matches!(overrides.matched(relative, false), ignore::Match::Ignore(_)) {
-                        return false;
-                    }
-                }
+                return false;
             }
 
             // Include filter: if set, only keep files matching at least one pattern
             if let Some(include_patterns) = &settings.linter.include
                 && !include_patterns.is_empty()
+                && !matches_patterns(&build_patterns(root, include_patterns), root, path)
             {
-                let mut override_builder = ignore::overrides::OverrideBuilder::new(root);
-                for pattern in include_patterns {
-                    let file_pattern = if pattern.ends_with('/') {
-                        format!("{}**", pattern)
-                    } else {
-                        pattern.clone()
-                    };
-                    if let Err(e) = override_builder.add(&file_pattern) {
-                        tracing::warn!("Failed to add include pattern '{}': {}", pattern, e);
-                    }
-                }
-                if let Ok(overrides) = override_builder.build() {
-                    let relative = path.strip_prefix(root).unwrap_or(path.as_path());
-                    if !matches!(
-                        overrides.matched(relative, false),
-                        ignore::Match::Whitelist(_)
-                    ) {
-                        return false;
-                    }
-                }
+                return false;
             }
 
             true
@@ -384,6 +311,77 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
     files
 }
 
+/// Compile gitignore-style patterns, resolved relatively to `root`.
+fn build_patterns<S: AsRef<str>>(root: &Path, patterns: &[S]) -> Override {
+    let mut builder = OverrideBuilder::new(root);
+    for pattern in patterns {
+        let pattern = pattern.as_ref();
+        // In an override, patterns to ignore start with "!"
+        if let Err(e) = builder.add(&format!("!{pattern}")) {
+            tracing::warn!("Failed to add pattern '{}': {}", pattern, e);
+        }
+    }
+    builder.build().unwrap_or_else(|_| Override::empty())
+}
+
+/// Does the file `path`, or one of its parent directories below `root`, match
+/// one of the patterns?
+fn matches_patterns(patterns: &Override, root: &Path, path: &Path) -> bool {
+    patterns.matched(path, false).is_ignore()
+        || path
+            .ancestors()
+            .skip(1)
+            .take_while(|dir| *dir != root && dir.starts_with(root))
+            .any(|dir| patterns.matched(dir, true).is_ignore())
+}
+
+/// The exclude patterns of each config. Directories and files are excluded by
+/// the config that is the nearest to the directory that contains them.
+struct Excluder<'a> {
+    resolver: &'a PathResolver<Settings>,
+    /// Exclude patterns by directory of the config
+    patterns: Vec<(&'a Path, Override)>,
+    /// Exclude patterns of files that don't have any config
+    default: Override,
+}
+
+impl<'a> Excluder<'a> {
+    fn new(resolver: &'a PathResolver<Settings>, no_default_exclude: bool) -> Self {
+        let patterns = resolver
+            .items()
+            .iter()
+            .map(|item| {
+                let linter = &item.value().linter;
+                let mut patterns: Vec<&str> = linter
+                    .exclude
+                    .iter()
+                    .flatten()
+                    .map(String::as_str)
+                    .collect();
+                if linter.default_exclude.unwrap_or(true) {
+                    patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
+                }
+                (item.path(), build_patterns(item.path(), &patterns))
+            })
+            .collect();
+        let default = if no_default_exclude {
+            Override::empty()
+        } else {
+            build_patterns(Path::new("."), DEFAULT_EXCLUDE_PATTERNS)
+        };
+        Self { resolver, patterns, default }
+    }
+
+    fn is_excluded(&self, path: &Path, is_directory: bool) -> bool {
+        let patterns = path
+            .parent()
+            .and_then(|parent| resolve_settings(self.resolver, parent))
+            .and_then(|(dir, _)| self.patterns.iter().find(|(root, _)| *root == dir))
+            .map_or(&self.default, |(_, patterns)| patterns);
+        patterns.matched(path, is_directory).is_ignore()
+    }
+}
+
 /// The path that could not be read, or an empty string if it is unknown.
 pub fn discovery_error_path(error: &ignore::Error) -> String {
     match error {
@@ -394,13 +392,14 @@ pub fn discovery_error_path(error: &ignore::Error) -> String {
 }
 
 /// Shared state across the threads of the walker
-struct FilesState {
+struct FilesState<'a> {
     files: std::sync::Mutex<DiscoveredFiles>,
+    excluder: Option<Excluder<'a>>,
 }
 
-impl FilesState {
-    fn new() -> Self {
-        Self { files: std::sync::Mutex::new(Vec::new()) }
+impl<'a> FilesState<'a> {
+    fn new(excluder: Option<Excluder<'a>>) -> Self {
+        Self { files: std::sync::Mutex::new(Vec::new()), excluder }
     }
 
     fn finish(self) -> DiscoveredFiles {
@@ -413,11 +412,11 @@ impl FilesState {
 /// Implements the `build()` method of [ignore::ParallelVisitorBuilder], which
 /// [ignore::WalkParallel] utilizes to create one [FilesVisitor] per thread.
 struct FilesVisitorBuilder<'state> {
-    state: &'state FilesState,
+    state: &'state FilesState<'state>,
 }
 
 impl<'state> FilesVisitorBuilder<'state> {
-    fn new(state: &'state FilesState) -> Self {
+    fn new(state: &'state FilesState<'state>) -> Self {
         Self { state }
     }
 }
@@ -436,7 +435,7 @@ impl<'state> ignore::ParallelVisitorBuilder<'state> for FilesVisitorBuilder<'sta
 /// the collected `files` are appended to the global set of `state.files`.
 struct FilesVisitor<'state> {
     files: DiscoveredFiles,
-    state: &'state FilesState,
+    state: &'state FilesState<'state>,
 }
 
 impl ignore::ParallelVisitor for FilesVisitor<'_> {
@@ -487,6 +486,15 @@ impl ignore::ParallelVisitor for FilesVisitor<'_> {
             return ignore::WalkState::Continue;
         }
 
+        // Don't look into excluded directories
+        if !is_explicit
+            && let Some(excluder) = &self.state.excluder
+            && excluder.is_excluded(path, is_directory)
+        {
+            tracing::trace!("Excluded {path}", path = path.display());
+            return ignore::WalkState::Skip;
+        }
+
         // Check if this is an R or Rmd/Qmd file
         if !is_directory && (has_r_extension(path) || has_rmd_extension(path)) {
             tracing::trace!("Included R file {path}", path = path.display());
-- 
2.43.0


From 396839dad549102151f40443ac5e66b8215cf9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:37 +0000
Subject: [PATCH 34/66] fix: apply each configuration's own threshold to
 unused_function diagnostics (C03)

One threshold, the smallest of all configurations, was compared with the
number of diagnostics of all packages, and naming the rule in one
configuration kept the diagnostics of every other package.
---
 crates/jarl/src/commands/check.rs | 77 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index e8e4013..3f77476 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -7,7 +7,7 @@ use jarl_core::{
     config::ArgsConfig,
     config::build_config,
     diagnostic::Diagnostic,
-    fs::has_rmd_extension,
+    fs::{has_rmd_extension, normalize_path},
     package::find_package_root,
     settings::Settings,
     suppression_edit::{
@@ -19,8 +19,9 @@ use anyhow::Result;
 use colored::Colorize;
 use std::collections::BTreeMap;
 use std::collections::BTreeSet;
+use std::collections::HashMap;
 use std::env;
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
 use std::time::Instant;
 
 use crate::args::CheckCommand;
@@ -452,23 +453,43 @@ fn add_jarl_ignore_comments(
 /// Hide `unused_function` diagnostics when they exceed the configured
 /// threshold (likely false positives). Suppression is skipped when the
 /// rule is explicitly listed in `--select` / `--extend-select` (CLI) or
-/// in the corresponding TOML fields.
+/// in the corresponding TOML fields. The diagnostics of each configuration
+/// are counted apart, since they can have different thresholds.
 ///
-/// Returns `(hidden, total_count)` where `hidden` is `true` when the
-/// diagnostics were removed and `total_count` is the original number of
-/// `unused_function` diagnostics.
+/// Returns `(hidden, count)` where `hidden` is `true` when diagnostics were
+/// removed and `count` is the number of removed diagnostics.
 fn hide_unused_function_if_needed(
     all_diagnostics: &mut Vec<(String, Vec<Diagnostic>)>,
     args: &CheckCommand,
     resolver: &PathResolver<Settings>,
 ) -> (bool, usize) {
-    let explicitly_selected = args
+    let selected_in_cli = args
         .select
         .split(',')
         .chain(args.extend_select.split(','))
-        .any(|s| s.trim() == "unused_function")
-        || resolver.items().iter().any(|item| {
-            let linter = &item.value().linter;
+        .any(|s| s.trim() == "unused_function");
+    if selected_in_cli {
+        return (false, 0);
+    }
+
+    let config_of = |path: &str| resolve_settings(resolver, &normalize_path(path));
+
+    let mut counts: HashMap<Option<&Path>, usize> = HashMap::new();
+    for (path, diagnostics) in all_diagnostics.iter() {
+        let count = diagnostics
+            .iter()
+            .filter(|d| d.message.name == "unused_function")
+            .count();
+        *counts
+            .entry(config_of(path).map(|(dir, _)| dir))
+            .or_default() += count;
+    }
+
+    let mut hidden_count = 0;
+    for (path, diagnostics) in all_diagnostics.iter_mut() {
+        let config = config_of(path);
+        let linter = config.map(|(_, settings)| &settings.linter);
+        let explicitly_selected = linter.is_some_and(|linter| {
             linter
                 .select
                 .iter()
@@ -476,33 +497,17 @@ fn hide_unused_function_if_needed(
                 .flatten()
                 .any(|s| s == "unused_function")
         });
-
-    let threshold_ignore = resolver
-        .items()
-        .iter()
-        .map(|item| {
-            item.value()
-                .linter
-                .rule_options
-                .unused_function
-                .threshold_ignore
-        })
-        .min()
-        .unwrap_or(50);
-
-    let unused_fn_count = all_diagnostics
-        .iter()
-        .flat_map(|(_path, diagnostics)| diagnostics.iter())
-        .filter(|d| d.message.name == "unused_function")
-        .count();
-
-    let hidden = !explicitly_selected && unused_fn_count > threshold_ignore;
-    if hidden {
-        for (_path, diagnostics) in all_diagnostics.iter_mut() {
-            diagnostics.retain(|d| d.message.name != "unused_function");
+        let threshold_ignore = linter.map_or(50, |linter| {
+            linter.rule_options.unused_function.threshold_ignore
+        });
+        if explicitly_selected || counts[&config.map(|(dir, _)| dir)] <= threshold_ignore {
+            continue;
         }
-        all_diagnostics.retain(|(_path, diagnostics)| !diagnostics.is_empty());
+        let before = diagnostics.len();
+        diagnostics.retain(|d| d.message.name != "unused_function");
+        hidden_count += before - diagnostics.len();
     }
+    all_diagnostics.retain(|(_path, diagnostics)| !diagnostics.is_empty());
 
-    (hidden, unused_fn_count)
+    (hidden_count > 0, hidden_count)
 }
-- 
2.43.0


From c59c00b7c139038efcd22393d419926f9b41793c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 35/66] fix: apply ignore comments to diagnostics about the
 statements that follow them

A diagnostic can be about several statements (unreachable code). No comment
could hide it if these statements are at the top level of the file.
---
 crates/jarl-core/src/suppression.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 5682d5e..f662ecc 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -683,9 +683,11 @@ impl SuppressionManager {
             }
         }
 
-        // Check node-level suppressions (cascading: diagnostic within node range)
+        // Check node-level suppressions (cascading: diagnostic within node range).
+        // A diagnostic can be about several statements, e.g. unreachable code, in
+        // which case a comment before the first one is enough.
         for sup in &self.node_suppressions {
-            if sup.rule == rule && sup.node_range.contains_range(diag.range) {
+            if sup.rule == rule && sup.node_range.contains(diag.range.start()) {
                 self.used_suppressions.insert(sup.comment_range);
                 return true;
             }
-- 
2.43.0


From b0e7de2dd6ea315bc8549ab434ce1a3f0d71993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 36/66] fix: insert ignore comments before the code they are
 about

Without an expression that the insertion looks for, e.g. for `x; T`, the
comment was inserted at the beginning of the line, where it applies to other
code, and which can be inside of a string.
---
 crates/jarl-core/src/suppression_edit.rs | 198 ++++++++++++-----------
 1 file changed, 104 insertions(+), 94 deletions(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..acc48fc 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -8,6 +8,7 @@
 use air_r_parser::RParserOptions;
 use air_r_syntax::RSyntaxKind;
 use biome_rowan::{AstNode, SyntaxNode, TextRange, TextSize};
+use std::ops::Range;
 
 /// Information about where to insert a suppression comment
 #[derive(Debug, Clone)]
@@ -20,6 +21,8 @@ pub struct SuppressionInsertPoint {
     pub line: usize,
     /// Whether we need to add a leading newline (when expression is inline with other code)
     pub needs_leading_newline: bool,
+    /// The byte range of the code that the comment applies to
+    pub covered: Range<usize>,
 }
 
 /// Result of attempting to compute a suppression edit
@@ -172,111 +175,115 @@ pub fn compute_suppression_insert_point(
         biome_rowan::NodeOrToken::Token(token) => token.parent()?,
     };
 
-    // Walk up the tree to find meaningful expressions
-    // Strategy:
-    // 1. Inside control flow (if/for/while): use the LARGEST meaningful expression
-    //    so all violations in the same condition get the same insert point
-    // 2. Outside control flow: use the FIRST expression on its own line (more targeted)
-    let mut current = start_node;
+    let Some(target) = find_target_expression(source, start_node, diagnostic_range) else {
+        // Fallback to simple insertion
+        return compute_simple_insert_point(source, diagnostic_start);
+    };
+
+    let target_start: usize = target.text_trimmed_range().start().into();
+    let covered = outermost_node_with_same_start(target).text_trimmed_range();
+    let covered = covered.start().into()..covered.end().into();
+
+    if is_on_own_line(source, target_start) {
+        // Expression is on its own line - use line-start insertion
+        let (line_start_offset, indent) = find_line_start_and_indent(source, target_start);
+
+        Some(SuppressionInsertPoint {
+            offset: line_start_offset,
+            indent,
+            line: count_lines_to(source, line_start_offset),
+            needs_leading_newline: false,
+            covered,
+        })
+    } else {
+        // Use inline insertion, with an indent based on the column position
+        Some(SuppressionInsertPoint {
+            offset: target_start,
+            indent: compute_inline_indent(source, target_start),
+            line: count_lines_to(source, target_start),
+            needs_leading_newline: true,
+            covered,
+        })
+    }
+}
+
+/// Find the expression before which the suppression comment is inserted.
+///
+/// Walk up the tree to find meaningful expressions:
+/// 1. Inside control flow (if/for/while): use the LARGEST meaningful expression
+///    so all violations in the same condition get the same insert point
+/// 2. Outside control flow: use the FIRST expression on its own line (more targeted)
+/// 3. If there is no meaningful expression: use the smallest expression that contains
+///    the diagnostic
+fn find_target_expression(
+    source: &str,
+    start_node: SyntaxNode<air_r_syntax::RLanguage>,
+    diagnostic_range: TextRange,
+) -> Option<SyntaxNode<air_r_syntax::RLanguage>> {
     let mut last_meaningful: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
     let mut first_meaningful_on_own_line: Option<SyntaxNode<air_r_syntax::RLanguage>> = None;
 
-    loop {
-        if is_meaningful_expression(&current) {
-            let node_start = current.text_trimmed_range().start();
-            let node_start_offset: usize = node_start.into();
-            let on_own_line = is_on_own_line(source, node_start_offset);
-
-            if is_control_flow_statement(&current) {
-                // Hit a control flow statement - use the LAST (largest) meaningful expression
-                // This ensures all violations in the same condition share one insert point
-                if let Some(expr) = last_meaningful.clone() {
-                    let expr_start: usize = expr.text_trimmed_range().start().into();
-                    if is_on_own_line(source, expr_start) {
-                        // Expression is on its own line - use line-start insertion
-                        let (line_start_offset, indent) =
-                            find_line_start_and_indent(source, expr_start);
-                        let line_number = source[..line_start_offset].matches('\n').count();
-
-                        return Some(SuppressionInsertPoint {
-                            offset: line_start_offset,
-                            indent,
-                            line: line_number,
-                            needs_leading_newline: false,
-                        });
-                    } else {
-                        // Use inline insertion
-                        let indent = compute_inline_indent(source, expr_start);
-                        let line_number = count_lines_to(source, expr_start);
-
-                        return Some(SuppressionInsertPoint {
-                            offset: expr_start,
-                            indent,
-                            line: line_number,
-                            needs_leading_newline: true,
-                        });
-                    }
-                }
-                // Control flow with no inner expression - use line-start at the control flow
-                if on_own_line {
-                    let (line_start_offset, indent) =
-                        find_line_start_and_indent(source, node_start_offset);
-                    let line_number = source[..line_start_offset].matches('\n').count();
-
-                    return Some(SuppressionInsertPoint {
-                        offset: line_start_offset,
-                        indent,
-                        line: line_number,
-                        needs_leading_newline: false,
-                    });
-                }
-            } else {
-                // Non-control-flow meaningful expression - track it
-                last_meaningful = Some(current.clone());
-                // Track the FIRST one on its own line (for non-control-flow case)
-                if on_own_line && first_meaningful_on_own_line.is_none() {
-                    first_meaningful_on_own_line = Some(current.clone());
-                }
-            }
+    for current in start_node.ancestors() {
+        if !is_meaningful_expression(&current) {
+            continue;
         }
 
-        // Go up to parent
-        match current.parent() {
-            Some(parent) => current = parent,
-            None => break,
+        let node_start: usize = current.text_trimmed_range().start().into();
+        let on_own_line = is_on_own_line(source, node_start);
+
+        if is_control_flow_statement(&current) {
+            // Hit a control flow statement - use the LAST (largest) meaningful expression
+            // This ensures all violations in the same condition share one insert point
+            if last_meaningful.is_some() {
+                return last_meaningful;
+            }
+            // Control flow with no inner expression - use line-start at the control flow
+            if on_own_line {
+                return Some(current);
+            }
+        } else {
+            // Non-control-flow meaningful expression - track it
+            // Track the FIRST one on its own line (for non-control-flow case)
+            if on_own_line && first_meaningful_on_own_line.is_none() {
+                first_meaningful_on_own_line = Some(current.clone());
+            }
+            last_meaningful = Some(current);
         }
     }
 
     // No control flow found - use the FIRST expression on its own line (more targeted)
-    if let Some(expr) = first_meaningful_on_own_line {
-        let expr_start: usize = expr.text_trimmed_range().start().into();
-        let (line_start_offset, indent) = find_line_start_and_indent(source, expr_start);
-        let line_number = source[..line_start_offset].matches('\n').count();
-
-        return Some(SuppressionInsertPoint {
-            offset: line_start_offset,
-            indent,
-            line: line_number,
-            needs_leading_newline: false,
-        });
-    } else if let Some(inline_node) = last_meaningful {
-        let node_start = inline_node.text_trimmed_range().start();
-        let node_start_offset: usize = node_start.into();
-
-        // Calculate indent based on the column position
-        let indent = compute_inline_indent(source, node_start_offset);
-        let line_number = count_lines_to(source, node_start_offset);
+    first_meaningful_on_own_line
+        .or(last_meaningful)
+        .or_else(|| start_node.ancestors().find(|node| !is_list(node)))
+        .or_else(|| {
+            // Several top-level expressions - use the first one
+            start_node.descendants().find(|node| {
+                !is_list(node) && node.text_trimmed_range().start() == diagnostic_range.start()
+            })
+        })
+}
 
-        return Some(SuppressionInsertPoint {
-            offset: node_start_offset,
-            indent,
-            line: line_number,
-            needs_leading_newline: true,
-        });
-    }
+/// Get the largest node that starts where `node` starts. This is the node that
+/// suppression comments before `node` apply to.
+fn outermost_node_with_same_start(
+    node: SyntaxNode<air_r_syntax::RLanguage>,
+) -> SyntaxNode<air_r_syntax::RLanguage> {
+    let start = node.text_trimmed_range().start();
+    node.ancestors()
+        .take_while(|ancestor| ancestor.text_trimmed_range().start() == start && !is_list(ancestor))
+        .last()
+        .unwrap_or(node)
+}
 
-    // Fallback to simple insertion
-    compute_simple_insert_point(source, diagnostic_start)
+/// Check if a syntax node only holds a list of expressions, arguments or parameters.
+fn is_list(node: &SyntaxNode<air_r_syntax::RLanguage>) -> bool {
+    matches!(
+        node.kind(),
+        RSyntaxKind::R_ROOT
+            | RSyntaxKind::R_EXPRESSION_LIST
+            | RSyntaxKind::R_ARGUMENT_LIST
+            | RSyntaxKind::R_PARAMETER_LIST
+    )
 }
 
 /// Check if a position is on its own line (preceded only by whitespace after a newline)
@@ -353,6 +360,7 @@ fn compute_simple_insert_point(source: &str, byte_offset: usize) -> Option<Suppr
         indent,
         line: line_number,
         needs_leading_newline: false,
+        covered: byte_offset..byte_offset,
     })
 }
 
@@ -438,6 +446,8 @@ pub fn create_suppression_edit_in_rmd(
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
             // Remap chunk-local offset to file-level offset.
             insert_point.offset += chunk.start_byte;
+            insert_point.covered.start += chunk.start_byte;
+            insert_point.covered.end += chunk.start_byte;
             let comment_text = format_suppression_comments(
                 &[rule_name],
                 explanation,
-- 
2.43.0


From d937290bef362ae2b38b92429085d3553828c7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:45 +0000
Subject: [PATCH 37/66] fix: with --add-jarl-ignore, only insert comments that
 suppress something

Comments were inserted for violations of comments themselves, for hidden
violations, with an empty reason, and inside of code for which the same rule is
already suppressed. Files that cannot be read or written are errors.
---
 crates/jarl/src/commands/check.rs | 72 +++++++++++++++++++++++--------
 1 file changed, 53 insertions(+), 19 deletions(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index 3f77476..a3c52e4 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -2,7 +2,7 @@ use air_workspace::resolve::PathResolver;
 use jarl_core::discovery::{
     discover_r_file_paths, discover_settings, discovery_error_path, resolve_settings,
 };
-use jarl_core::rule_set::Rule;
+use jarl_core::rule_set::{Category, Rule};
 use jarl_core::{
     config::ArgsConfig,
     config::build_config,
@@ -11,7 +11,8 @@ use jarl_core::{
     package::find_package_root,
     settings::Settings,
     suppression_edit::{
-        create_suppression_edit, create_suppression_edit_in_rmd, format_suppression_comments,
+        SuppressionInsertPoint, create_suppression_edit, create_suppression_edit_in_rmd,
+        format_suppression_comments,
     },
 };
 
@@ -140,6 +141,14 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     // Errors come in the order in which files were discovered and checked.
     all_errors.sort_by(|a, b| a.0.cmp(&b.0));
 
+    // `--fix-only` doesn't report the violations that are left.
+    if args.fix_only && args.add_jarl_ignore.is_none() {
+        all_diagnostics.clear();
+    }
+
+    let (unused_fn_hidden, unused_fn_count) =
+        hide_unused_function_if_needed(&mut all_diagnostics, &args, &resolver);
+
     // Handle --add-jarl-ignore: insert suppression comments for all diagnostics
     if let Some(reason) = &args.add_jarl_ignore {
         print_errors(&all_errors);
@@ -151,14 +160,6 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
         });
     }
 
-    // `--fix-only` doesn't report the violations that are left.
-    if args.fix_only {
-        all_diagnostics.clear();
-    }
-
-    let (unused_fn_hidden, unused_fn_count) =
-        hide_unused_function_if_needed(&mut all_diagnostics, &args, &resolver);
-
     // Flatten all diagnostics into a single vector and sort globally
     let mut all_diagnostics_flat: Vec<&Diagnostic> = all_diagnostics
         .iter()
@@ -309,6 +310,13 @@ fn add_jarl_ignore_comments(
         ));
     }
 
+    // Suppression comments without explanation are ignored
+    if reason.trim().is_empty() {
+        return Err(anyhow::anyhow!(
+            "--add-jarl-ignore=<reason> cannot be empty."
+        ));
+    }
+
     if all_diagnostics.is_empty() {
         println!(
             "{}: {}",
@@ -320,6 +328,7 @@ fn add_jarl_ignore_comments(
 
     let mut total_suppressions = 0;
     let mut files_modified = 0;
+    let mut status = ExitStatus::Success;
 
     // Group diagnostics by file path (use BTreeMap for deterministic order)
     let mut by_file: BTreeMap<&str, Vec<&Diagnostic>> = BTreeMap::new();
@@ -339,15 +348,22 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
                 continue;
             }
         };
 
         // Compute suppression edits for each diagnostic
-        // Store (offset, indent, needs_leading_newline, rule_name) to merge rules at same offset
-        let mut raw_edits: Vec<(usize, String, bool, String)> = Vec::new();
+        let mut edits: Vec<(SuppressionInsertPoint, String)> = Vec::new();
         let is_rmd = has_rmd_extension(&path);
         for diagnostic in &diagnostics {
+            // Violations of suppression comments cannot be suppressed.
+            if Rule::from_name(&diagnostic.message.name)
+                .is_some_and(|rule| rule.has_category(Category::Comm))
+            {
+                continue;
+            }
+
             let start: usize = diagnostic.range.start().into();
             let end: usize = diagnostic.range.end().into();
             let rule_name = &diagnostic.message.name;
@@ -359,15 +375,32 @@ fn add_jarl_ignore_comments(
             };
 
             if let Some(edit) = edit {
-                raw_edits.push((
-                    edit.insert_point.offset,
-                    edit.insert_point.indent,
-                    edit.insert_point.needs_leading_newline,
-                    rule_name.clone(),
-                ));
+                edits.push((edit.insert_point, rule_name.clone()));
             }
         }
 
+        // Store (offset, indent, needs_leading_newline, rule_name) to merge rules at same offset.
+        // A comment that is inside of code for which the same rule is already suppressed would
+        // be reported as outdated.
+        let mut raw_edits: Vec<(usize, String, bool, String)> = edits
+            .iter()
+            .filter(|(point, rule_name)| {
+                !edits.iter().any(|(other, other_rule)| {
+                    other_rule == rule_name
+                        && other.covered.start < point.covered.start
+                        && point.covered.end <= other.covered.end
+                })
+            })
+            .map(|(point, rule_name)| {
+                (
+                    point.offset,
+                    point.indent.clone(),
+                    point.needs_leading_newline,
+                    rule_name.clone(),
+                )
+            })
+            .collect();
+
         if raw_edits.is_empty() {
             continue;
         }
@@ -428,6 +461,7 @@ fn add_jarl_ignore_comments(
                     path.display(),
                     e
                 );
+                status = ExitStatus::Error;
             }
         }
     }
@@ -447,7 +481,7 @@ fn add_jarl_ignore_comments(
         println!("\nUsed '{}'", config_path.display());
     }
 
-    Ok(ExitStatus::Success)
+    Ok(status)
 }
 
 /// Hide `unused_function` diagnostics when they exceed the configured
-- 
2.43.0


From fad7f6f12480c29d3d6b574153cc942f22b18e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 38/66] fix: answer code action requests with invalid
 parameters

The request was dropped with only a log message, so that the editor waited
for an answer forever.
---
 crates/jarl-lsp/src/server.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..bc0063d 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -5,7 +5,7 @@
 
 use anyhow::{Context, Result, anyhow};
 use crossbeam::channel;
-use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
+use lsp_server::{Connection, ErrorCode, Message, Notification, Request, RequestId, Response};
 use lsp_types::{self as types, notification::Notification as _, request::Request as _};
 
 use std::num::NonZeroUsize;
@@ -226,7 +226,17 @@ impl Server {
             // Pull diagnostics are disabled: diagnostics are only published on save.
             // This avoids showing stale or partial diagnostics while typing.
             types::request::CodeActionRequest::METHOD => {
-                let params: types::CodeActionParams = serde_json::from_value(request.params)?;
+                let params: types::CodeActionParams = match serde_json::from_value(request.params) {
+                    Ok(params) => params,
+                    Err(e) => {
+                        client.send_error_response(
+                            request.id,
+                            anyhow!("Invalid code action parameters: {e}")
+                                .to_lsp_error_with_code(ErrorCode::InvalidParams as i32),
+                        )?;
+                        return Ok(());
+                    }
+                };
                 let uri = params.text_document.uri.clone();
 
                 if let Some(snapshot) = session.take_snapshot(uri) {
-- 
2.43.0


From 764f5dd9220af4942ea2b1e34f06577d29248deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 39/66] fix: keep serving until the exit notification

The server stopped as soon as shutdown was requested: later requests were
never answered, and the exit notification that followed found no receiver,
which made the process fail after a regular shutdown. Conversely, exit
without shutdown reported success.
---
 crates/jarl-lsp/src/server.rs  | 25 +++++++++++++++++++++++--
 crates/jarl-lsp/src/session.rs | 14 ++++++++++++++
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index bc0063d..1d5b608 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -180,12 +180,15 @@ impl Server {
                 }
             }
 
-            if session.is_shutdown_requested() {
+            if session.is_exit_requested() {
                 break;
             }
         }
 
         tracing::info!("Main loop stopped");
+        if session.is_exit_requested() && !session.is_shutdown_requested() {
+            return Err(anyhow!("Exit requested without a prior shutdown request"));
+        }
         Ok(())
     }
 
@@ -217,6 +220,16 @@ impl Server {
     ) -> LspResult<()> {
         let client = session.client().clone();
 
+        // After a shutdown request, only the exit notification is still acted upon.
+        if session.is_shutdown_requested() {
+            client.send_error_response(
+                request.id,
+                anyhow!("The server is shutting down")
+                    .to_lsp_error_with_code(ErrorCode::InvalidRequest as i32),
+            )?;
+            return Ok(());
+        }
+
         match request.method.as_str() {
             types::request::Shutdown::METHOD => {
                 session.request_shutdown();
@@ -276,6 +289,11 @@ impl Server {
         task_sender: &channel::Sender<Task>,
     ) -> LspResult<()> {
         tracing::debug!("Handling notification: {}", notification.method);
+        if session.is_shutdown_requested()
+            && notification.method != types::notification::Exit::METHOD
+        {
+            return Ok(());
+        }
         match notification.method.as_str() {
             types::notification::Exit::METHOD => {
                 if session.is_shutdown_requested() {
@@ -283,7 +301,10 @@ impl Server {
                 } else {
                     tracing::warn!("Exit without shutdown - this is a protocol violation");
                 }
-                std::process::exit(0);
+                // The main loop stops, so that the answers that are still being
+                // computed are sent before the process ends.
+                session.request_exit();
+                Ok(())
             }
             types::notification::DidOpenTextDocument::METHOD => {
                 let params: types::DidOpenTextDocumentParams =
diff --git a/crates/jarl-lsp/src/session.rs b/crates/jarl-lsp/src/session.rs
index d5d6279..5ab174f 100644
--- a/crates/jarl-lsp/src/session.rs
+++ b/crates/jarl-lsp/src/session.rs
@@ -39,6 +39,8 @@ pub struct Session {
     position_encoding: PositionEncoding,
     /// Whether the client has requested shutdown
     shutdown_requested: bool,
+    /// Whether the client has told the server to exit
+    exit_requested: bool,
     /// Workspace root paths
     workspace_roots: Vec<PathBuf>,
     /// Client for sending messages
@@ -72,6 +74,7 @@ impl Session {
             client_capabilities,
             position_encoding,
             shutdown_requested: false,
+            exit_requested: false,
             workspace_roots,
             client,
             config_notification_shown: false,
@@ -234,6 +237,17 @@ impl Session {
         self.shutdown_requested
     }
 
+    /// Mark that the client told the server to exit
+    pub fn request_exit(&mut self) {
+        self.exit_requested = true;
+        tracing::info!("Exit requested");
+    }
+
+    /// Check if the client told the server to exit
+    pub fn is_exit_requested(&self) -> bool {
+        self.exit_requested
+    }
+
     /// Get the client for sending messages
     pub fn client(&self) -> &Client {
         &self.client
-- 
2.43.0


From 69d8875ee2b9d4355dac55bf2bef3b9dc237ef46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 40/66] fix: never publish outdated diagnostics

Lint tasks run on several threads, so that the diagnostics of an older text
could be published after those of a newer one, or after the document had
been closed and its diagnostics cleared.
---
 crates/jarl-lsp/src/server.rs  | 38 ++++++++++++++++++-----------
 crates/jarl-lsp/src/session.rs | 44 ++++++++++++++++++++++++++++++++++
 2 files changed, 68 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 1d5b608..508ef30 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -16,7 +16,7 @@ use crate::LspResult;
 use crate::client::{Client, ToLspError};
 use crate::document::TextDocument;
 use crate::lint;
-use crate::session::{DocumentSnapshot, Session, negotiate_position_encoding};
+use crate::session::{DocumentSnapshot, PublishTicket, Session, negotiate_position_encoding};
 
 /// Main LSP server
 pub struct Server {
@@ -42,6 +42,7 @@ pub enum Task {
     LintDocument {
         snapshot: Box<DocumentSnapshot>,
         client: Client,
+        ticket: PublishTicket,
     },
     /// Handle a code action request
     HandleCodeActionRequest {
@@ -347,11 +348,13 @@ impl Server {
 
                 session.close_document(params.text_document.uri.clone())?;
 
-                // Clear diagnostics for the closed document
+                // Clear diagnostics for the closed document. This supersedes the lint tasks
+                // that are still running for it.
+                let client = session.client().clone();
+                let uri = params.text_document.uri;
                 session
-                    .client()
-                    .publish_diagnostics(params.text_document.uri, vec![], None)?;
-                Ok(())
+                    .publish_ticket(&uri)
+                    .publish(|| client.publish_diagnostics(uri.clone(), vec![], None))
             }
             types::notification::DidSaveTextDocument::METHOD => {
                 let params: types::DidSaveTextDocumentParams =
@@ -360,9 +363,11 @@ impl Server {
                 tracing::debug!("Document saved: {}", params.text_document.uri);
 
                 if let Some(snapshot) = session.take_snapshot(params.text_document.uri) {
+                    let ticket = session.publish_ticket(snapshot.uri());
                     task_sender.send(Task::LintDocument {
                         snapshot: Box::new(snapshot),
                         client: session.client().clone(),
+                        ticket,
                     })?;
                 }
                 Ok(())
@@ -382,8 +387,8 @@ impl Server {
     ) {
         while let Ok(task) = task_receiver.recv() {
             match task {
-                Task::LintDocument { snapshot, client } => {
-                    if let Err(e) = Self::handle_lint_task(*snapshot, client) {
+                Task::LintDocument { snapshot, client, ticket } => {
+                    if let Err(e) = Self::handle_lint_task(*snapshot, client, ticket) {
                         tracing::error!("Error in lint task: {}", e);
                     }
                 }
@@ -395,7 +400,11 @@ impl Server {
     }
 
     /// Handle linting a document and publishing diagnostics
-    fn handle_lint_task(snapshot: DocumentSnapshot, client: Client) -> LspResult<()> {
+    fn handle_lint_task(
+        snapshot: DocumentSnapshot,
+        client: Client,
+        ticket: PublishTicket,
+    ) -> LspResult<()> {
         let start = Instant::now();
         let output = lint::lint_document(&snapshot)?;
         let elapsed = start.elapsed();
@@ -411,12 +420,13 @@ impl Server {
             let _ = client.notify_unused_fn_threshold_once(output.unused_fn_hidden_count);
         }
 
-        client.publish_diagnostics(
-            snapshot.uri().clone(),
-            output.diagnostics,
-            Some(snapshot.version()),
-        )?;
-        Ok(())
+        ticket.publish(|| {
+            client.publish_diagnostics(
+                snapshot.uri().clone(),
+                output.diagnostics,
+                Some(snapshot.version()),
+            )
+        })
     }
 
     /// Handle a code action request by providing quick fixes for diagnostics
diff --git a/crates/jarl-lsp/src/session.rs b/crates/jarl-lsp/src/session.rs
index 5ab174f..1ab50cf 100644
--- a/crates/jarl-lsp/src/session.rs
+++ b/crates/jarl-lsp/src/session.rs
@@ -14,6 +14,7 @@ use rustc_hash::FxHashMap;
 use serde::Deserialize;
 
 use std::path::PathBuf;
+use std::sync::{Arc, Mutex};
 
 use crate::LspResult;
 use crate::client::Client;
@@ -47,6 +48,31 @@ pub struct Session {
     client: Client,
     /// Whether we've shown the config notification
     config_notification_shown: bool,
+    /// For each document, the number of times its diagnostics were requested or cleared
+    publish_counts: PublishCounts,
+}
+
+type PublishCounts = Arc<Mutex<FxHashMap<DocumentKey, u64>>>;
+
+/// The right to publish diagnostics for a document, which is lost as soon as a more
+/// recent ticket is handed out for the same document.
+pub struct PublishTicket {
+    key: DocumentKey,
+    number: u64,
+    counts: PublishCounts,
+}
+
+impl PublishTicket {
+    /// Run `publish`, unless there is a more recent ticket for this document. No other
+    /// ticket can be used or handed out in the meantime.
+    pub fn publish(&self, publish: impl FnOnce() -> LspResult<()>) -> LspResult<()> {
+        let counts = self.counts.lock().unwrap_or_else(|e| e.into_inner());
+        if counts.get(&self.key) != Some(&self.number) {
+            tracing::debug!("Outdated diagnostics for {} dropped", self.key.uri());
+            return Ok(());
+        }
+        publish()
+    }
 }
 
 /// Immutable snapshot of a document and its context
@@ -78,6 +104,24 @@ impl Session {
             workspace_roots,
             client,
             config_notification_shown: false,
+            publish_counts: PublishCounts::default(),
+        }
+    }
+
+    /// Hand out the right to publish diagnostics for a document; the tickets handed out
+    /// earlier for this document can't be used anymore.
+    pub fn publish_ticket(&self, uri: &Url) -> PublishTicket {
+        let key = DocumentKey::from(uri.clone());
+        let mut counts = self
+            .publish_counts
+            .lock()
+            .unwrap_or_else(|e| e.into_inner());
+        let number = counts.entry(key.clone()).or_insert(0);
+        *number += 1;
+        PublishTicket {
+            key,
+            number: *number,
+            counts: Arc::clone(&self.publish_counts),
         }
     }
 
-- 
2.43.0


From c7c583e483b3954c3ce354f70d4015e62b52e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 41/66] fix: clear the diagnostics of documents that can't be
 linted

The diagnostics of the previous text stayed on screen when the new text
couldn't be linted, and a panic while linting took the worker thread with it.
---
 crates/jarl-lsp/src/server.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 508ef30..ccd1e2f 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -9,6 +9,7 @@ use lsp_server::{Connection, ErrorCode, Message, Notification, Request, RequestI
 use lsp_types::{self as types, notification::Notification as _, request::Request as _};
 
 use std::num::NonZeroUsize;
+use std::panic::{self, AssertUnwindSafe};
 use std::thread;
 use std::time::Instant;
 
@@ -406,7 +407,12 @@ impl Server {
         ticket: PublishTicket,
     ) -> LspResult<()> {
         let start = Instant::now();
-        let output = lint::lint_document(&snapshot)?;
+        // A document that can't be linted (e.g. because of a syntax error) has no
+        // diagnostics: those of its previous text must not remain.
+        let output = guard_panic(|| lint::lint_document(&snapshot)).unwrap_or_else(|e| {
+            tracing::error!("Error while linting {}: {}", snapshot.uri(), e);
+            lint::LintOutput { diagnostics: Vec::new(), unused_fn_hidden_count: 0 }
+        });
         let elapsed = start.elapsed();
 
         tracing::debug!(
@@ -436,7 +442,7 @@ impl Server {
         params: types::CodeActionParams,
         client: Client,
     ) {
-        let actions = match Self::generate_code_actions(&snapshot, &params) {
+        let actions = match guard_panic(|| Self::generate_code_actions(&snapshot, &params)) {
             Ok(actions) => actions,
             Err(e) => {
                 // Syntax errors are expected while typing; return an empty list
@@ -724,6 +730,11 @@ impl Server {
     }
 }
 
+/// Turn a panic into an error, so that it doesn't take the worker thread down with it.
+fn guard_panic<T>(f: impl FnOnce() -> LspResult<T>) -> LspResult<T> {
+    panic::catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| Err(anyhow!("Unexpected panic")))
+}
+
 /// Check if two ranges overlap
 fn ranges_overlap(a: &types::Range, b: &types::Range) -> bool {
     a.start <= b.end && b.start <= a.end
-- 
2.43.0


From 7d97f9ac482365cdb3afa86d0d2e84e7f0dde42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:06 +0000
Subject: [PATCH 42/66] fix: answer initialize requests with invalid parameters

The server stopped without answering the request.
---
 crates/jarl-lsp/src/server.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index ccd1e2f..5a834ae 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -65,16 +65,25 @@ impl Server {
         tracing::info!("Starting LSP handshake");
 
         // Perform LSP handshake
-        let (id, init_params) = self
-            .connection
-            .initialize_start()
-            .context("Failed to start LSP initialization")?;
-
-        tracing::debug!("Received initialize request with id: {:?}", id);
-
-        // Parse initialize params
-        let init_params: lsp_types::InitializeParams = serde_json::from_value(init_params)
-            .context("Failed to parse initialization parameters")?;
+        let (id, init_params) = loop {
+            let (id, init_params) = self
+                .connection
+                .initialize_start()
+                .context("Failed to start LSP initialization")?;
+
+            tracing::debug!("Received initialize request with id: {:?}", id);
+
+            // Parse initialize params
+            match serde_json::from_value::<lsp_types::InitializeParams>(init_params) {
+                Ok(init_params) => break (id, init_params),
+                Err(e) => {
+                    let error = anyhow!("Failed to parse initialization parameters: {e}")
+                        .to_lsp_error_with_code(ErrorCode::InvalidParams as i32);
+                    let response = Response { id, result: None, error: Some(error) };
+                    self.connection.sender.send(Message::Response(response))?;
+                }
+            }
+        };
 
         tracing::debug!("Parsed initialize params successfully");
 
-- 
2.43.0


From 81412301660a514d83a1744edb8a96211c94d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 43/66] fix: exclude the same files in the editor as on the
 command line

The language server matched exclude and include patterns with its own rules
instead of the ones of the command line (relative paths, nested directories,
...), and didn't use the default exclude patterns without a configuration.
---
 crates/jarl-core/src/discovery.rs | 54 ++++++++++++++++++++-----------
 crates/jarl-lsp/src/utils.rs      | 49 +++-------------------------
 2 files changed, 40 insertions(+), 63 deletions(-)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 98fc5de..3e31ce2 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -286,29 +286,47 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
                 return true;
             };
 
-            let Some((root, settings)) = resolve_settings(resolver, path) else {
-                return true;
-            };
+            !is_filtered_out(path, resolver)
+        });
+    }
 
-            if let Some(exclude_patterns) = &settings.linter.exclude
-                && matches_patterns(&build_patterns(root, exclude_patterns), root, path)
-            {
-                return false;
-            }
+    files
+}
 
-            // Include filter: if set, only keep files matching at least one pattern
-            if let Some(include_patterns) = &settings.linter.include
-                && !include_patterns.is_empty()
-                && !matches_patterns(&build_patterns(root, include_patterns), root, path)
-            {
-                return false;
-            }
+/// Does the file `path` match the exclude patterns of its config, or none of its
+/// include patterns?
+fn is_filtered_out(path: &Path, resolver: &PathResolver<Settings>) -> bool {
+    let Some((root, settings)) = resolve_settings(resolver, path) else {
+        return false;
+    };
 
-            true
-        });
+    if let Some(exclude_patterns) = &settings.linter.exclude
+        && matches_patterns(&build_patterns(root, exclude_patterns), root, path)
+    {
+        return true;
     }
 
-    files
+    // Include filter: if set, only keep files matching at least one pattern
+    if let Some(include_patterns) = &settings.linter.include
+        && !include_patterns.is_empty()
+        && !matches_patterns(&build_patterns(root, include_patterns), root, path)
+    {
+        return true;
+    }
+
+    false
+}
+
+/// Is the file `path` left out when checking the directory of its config?
+pub fn is_excluded_file<P: AsRef<Path>>(path: P, resolver: &PathResolver<Settings>) -> bool {
+    let path = fs::normalize_path(path);
+    let root = resolver.resolve(&path).map(|item| item.path());
+    let excluder = Excluder::new(resolver, false);
+
+    path.ancestors()
+        .take_while(|ancestor| Some(*ancestor) != root)
+        .any(|ancestor| excluder.is_excluded(ancestor, ancestor != path))
+        || is_filtered_out(&path, resolver)
 }
 
 /// Compile gitignore-style patterns, resolved relatively to `root`.
diff --git a/crates/jarl-lsp/src/utils.rs b/crates/jarl-lsp/src/utils.rs
index 7c89bd6..bd6d0aa 100644
--- a/crates/jarl-lsp/src/utils.rs
+++ b/crates/jarl-lsp/src/utils.rs
@@ -3,7 +3,7 @@
 use std::path::Path;
 
 use air_workspace::resolve::PathResolver;
-use jarl_core::discovery::DEFAULT_EXCLUDE_PATTERNS;
+use jarl_core::discovery::is_excluded_file;
 use jarl_core::settings::Settings;
 
 /// Check if a path string matches an exclusion pattern
@@ -104,7 +104,8 @@ pub fn should_exclude_file(file_path: &Path, patterns: &[&str]) -> bool {
 /// Check if a file should be excluded based on settings from jarl.toml
 ///
 /// This function checks both the `default-exclude` option (which is `true` by default)
-/// and any custom `exclude` patterns specified in the jarl.toml configuration.
+/// and any custom `exclude` and `include` patterns specified in the jarl.toml
+/// configuration, the same way as the command line does.
 ///
 /// # Arguments
 /// * `file_path` - The path to the file to check
@@ -116,49 +117,7 @@ pub fn should_exclude_file_based_on_settings(
     file_path: &Path,
     resolver: &PathResolver<Settings>,
 ) -> bool {
-    // Get the first settings item (the one applicable to this file)
-    let Some(settings_item) = resolver.items().first() else {
-        // No settings found, don't exclude
-        return false;
-    };
-
-    let settings = settings_item.value();
-
-    // Check if default_exclude is enabled (true by default)
-    let use_default_exclude = settings.linter.default_exclude.unwrap_or(true);
-
-    let mut patterns = Vec::new();
-
-    if use_default_exclude {
-        patterns.extend_from_slice(DEFAULT_EXCLUDE_PATTERNS);
-    }
-
-    // Add custom exclude patterns from jarl.toml
-    if let Some(exclude_patterns) = &settings.linter.exclude {
-        for pattern in exclude_patterns {
-            patterns.push(pattern.as_str());
-        }
-    }
-
-    // Check if the file matches any exclusion pattern
-    if !patterns.is_empty() && should_exclude_file(file_path, &patterns) {
-        return true;
-    }
-
-    // Check include patterns: if set and the file doesn't match any, exclude it.
-    if let Some(include_patterns) = &settings.linter.include
-        && !include_patterns.is_empty()
-    {
-        let path_str = file_path.to_string_lossy();
-        let is_included = include_patterns
-            .iter()
-            .any(|p| matches_pattern(&path_str, p));
-        if !is_included {
-            return true;
-        }
-    }
-
-    false
+    is_excluded_file(file_path, resolver)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e84d54a6d30dbbb990c63e0bab37ff080db23973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:17 +0000
Subject: [PATCH 44/66] fix: lint files in the editor like the command line
 does

- use the closest configuration above the file, and options of this
  configuration only for the threshold of unused functions;
- analyze all files of the package that have the same configuration, so
  functions that are in tests are also checked;
- don't count unused functions that are suppressed or excluded.
---
 crates/jarl-lsp/src/lint.rs | 150 ++++++++++++++++++++++--------------
 1 file changed, 94 insertions(+), 56 deletions(-)

diff --git a/crates/jarl-lsp/src/lint.rs b/crates/jarl-lsp/src/lint.rs
index 42ffbc1..f0e409e 100644
--- a/crates/jarl-lsp/src/lint.rs
+++ b/crates/jarl-lsp/src/lint.rs
@@ -16,11 +16,14 @@ use crate::utils::should_exclude_file_based_on_settings;
 
 use air_workspace::resolve::PathResolver;
 use jarl_core::check::get_checks;
-use jarl_core::config::{ArgsConfig, build_config};
+use jarl_core::config::{ArgsConfig, Config, build_config};
 use jarl_core::diagnostic::Diagnostic as JarlDiagnostic;
-use jarl_core::discovery::{DiscoveredSettings, discover_settings};
-use jarl_core::fs::{has_r_extension, relativize_path};
-use jarl_core::package::{compute_package_analysis, is_in_r_package};
+use jarl_core::discovery::{
+    DiscoveredSettings, discover_r_file_paths, discover_settings, resolve_settings,
+};
+use jarl_core::fs::{normalize_path, relativize_path};
+use jarl_core::package::{PackageAnalysis, compute_package_analysis, find_package_root};
+use jarl_core::rule_set::Rule;
 use jarl_core::settings::Settings;
 
 /// Fix information that can be attached to a diagnostic for code actions
@@ -131,15 +134,19 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
         assignment: None,
     };
 
-    let toml_settings = resolver.items().first().map(|item| item.value());
+    let toml_settings = resolve_settings(&resolver, file_path).map(|(_, settings)| settings);
     let config = build_config(&check_config, toml_settings, vec![file_path.to_path_buf()])?;
 
-    // Compute package-level analysis using the real file's sibling R files.
-    let pkg = if let Some(package_files) = collect_sibling_r_files(file_path) {
-        compute_package_analysis(&package_files, &config)
+    // Compute package-level analysis using the files of the package on disk.
+    let needs_analysis = [Rule::DuplicatedFunctionDefinition, Rule::UnusedFunction]
+        .iter()
+        .any(|rule| config.rules_to_apply.contains(rule));
+    let package_files = if needs_analysis {
+        collect_package_files(file_path)?
     } else {
-        Default::default()
+        Vec::new()
     };
+    let pkg = compute_package_analysis(&package_files, &config);
 
     // Call get_checks directly with the in-memory content and the real
     // (relativized) file path, avoiding the old tempfile round-trip.
@@ -149,61 +156,92 @@ fn run_jarl_linting(content: &str, file_path: Option<&Path>) -> Result<LintInter
     // Hide unused_function diagnostics when the package-wide count exceeds
     // the threshold, matching the CLI behaviour. The LSP never passes
     // `--select unused_function` so we only check the toml settings.
-    let unused_fn_hidden_count = {
-        let explicitly_selected = resolver.items().iter().any(|item| {
-            let linter = &item.value().linter;
-            linter
-                .select
-                .iter()
-                .chain(linter.extend_select.iter())
-                .flatten()
-                .any(|s| s == "unused_function")
-        });
-
-        if explicitly_selected {
-            0
-        } else {
-            let total_unused: usize = pkg.unused_functions.values().map(|v| v.len()).sum();
-            let threshold = resolver
-                .items()
-                .iter()
-                .map(|item| {
-                    item.value()
-                        .linter
-                        .rule_options
-                        .unused_function
-                        .threshold_ignore
-                })
-                .min()
-                .unwrap_or(50);
-
-            if total_unused > threshold {
-                diagnostics.retain(|d| d.message.name != "unused_function");
-                total_unused
-            } else {
-                0
-            }
+    let linter = toml_settings.map(|settings| &settings.linter);
+    let explicitly_selected = linter.is_some_and(|linter| {
+        linter
+            .select
+            .iter()
+            .chain(linter.extend_select.iter())
+            .flatten()
+            .any(|s| s == "unused_function")
+    });
+    let threshold = linter.map_or(50, |linter| {
+        linter.rule_options.unused_function.threshold_ignore
+    });
+
+    let mut unused_fn_hidden_count = 0;
+    if !explicitly_selected
+        && diagnostics
+            .iter()
+            .any(|d| d.message.name == "unused_function")
+    {
+        let total_unused =
+            count_reported_unused_functions(&config, &pkg, &package_files, &rel_path, &diagnostics);
+        if total_unused > threshold {
+            diagnostics.retain(|d| d.message.name != "unused_function");
+            unused_fn_hidden_count = total_unused;
         }
-    };
+    }
 
     tracing::debug!("Found {} diagnostics for file", diagnostics.len());
     Ok(LintInternalOutput { diagnostics, unused_fn_hidden_count })
 }
 
-/// If `file_path` lives inside an R package's `R/` directory, return all
-/// `.R` files in that directory. Returns `None` otherwise.
-fn collect_sibling_r_files(file_path: &Path) -> Option<Vec<PathBuf>> {
-    if !is_in_r_package(file_path).unwrap_or(false) {
-        return None;
+/// The files of the package that contains `file_path` that are checked with the
+/// same configuration. Empty if `file_path` isn't in a package.
+fn collect_package_files(file_path: &Path) -> Result<Vec<PathBuf>> {
+    let file_path = normalize_path(file_path);
+    let Some(package_root) = find_package_root(&file_path) else {
+        return Ok(Vec::new());
+    };
+
+    let mut resolver = PathResolver::new(Settings::default());
+    for DiscoveredSettings { directory, settings, .. } in discover_settings(&[&package_root])? {
+        resolver.add(&directory, settings);
     }
-    let r_dir = file_path.parent()?;
-    let entries = std::fs::read_dir(r_dir).ok()?;
-    let files = entries
-        .filter_map(|e| e.ok())
-        .map(|e| e.path())
-        .filter(|p| has_r_extension(p))
+    let config_dir = |path: &Path| {
+        resolve_settings(&resolver, path).map(|(directory, _)| directory.to_path_buf())
+    };
+
+    let mut files: Vec<PathBuf> = discover_r_file_paths(&[&package_root], &resolver, true, false)
+        .into_iter()
+        .flatten()
+        .filter(|path| config_dir(path) == config_dir(&file_path))
+        .filter(|path| find_package_root(path).as_ref() == Some(&package_root))
         .collect();
-    Some(files)
+    if !files.contains(&file_path) {
+        files.push(file_path);
+    }
+    Ok(files)
+}
+
+/// Count the unused functions that are reported in the files of the package.
+/// Some of them may be suppressed by comments.
+fn count_reported_unused_functions(
+    config: &Config,
+    pkg: &PackageAnalysis,
+    package_files: &[PathBuf],
+    rel_path: &Path,
+    diagnostics: &[JarlDiagnostic],
+) -> usize {
+    let count = |diagnostics: &[JarlDiagnostic]| {
+        diagnostics
+            .iter()
+            .filter(|d| d.message.name == "unused_function")
+            .count()
+    };
+
+    package_files
+        .iter()
+        .map(|path| PathBuf::from(relativize_path(path)))
+        .filter(|path| path != rel_path && pkg.unused_functions.contains_key(path))
+        .filter_map(|path| {
+            let content = std::fs::read_to_string(&path).ok()?;
+            get_checks(&content, &path, config, pkg).ok()
+        })
+        .map(|diagnostics| count(&diagnostics))
+        .sum::<usize>()
+        + count(diagnostics)
 }
 
 /// Convert a Jarl diagnostic to LSP diagnostic format with fix information
-- 
2.43.0


From 89e8cabe2fb1b6629e04c534496a72569818cc8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:49 +0000
Subject: [PATCH 45/66] fix: insert the ignore comments of code actions where
 they belong

In R Markdown and Quarto files, comments were inserted at the line counted from
the start of the chunk instead of the file. Positions were counted in bytes,
whatever encoding was negotiated. Comments were offered for violations about
comments, which they can't suppress.
---
 crates/jarl-lsp/src/server.rs | 74 +++++++++++++++++------------------
 1 file changed, 35 insertions(+), 39 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index 5a834ae..d796b98 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -569,6 +569,9 @@ impl Server {
         let fix_data = diagnostic.data.as_ref()?;
         let fix: crate::lint::DiagnosticFix = serde_json::from_value(fix_data.clone()).ok()?;
         let rule_name = &fix.rule_name;
+        if !Self::can_be_ignored(rule_name) {
+            return None;
+        }
 
         // For Rmd/Qmd files we need to locate the right chunk before computing
         // the insertion point; for plain R files we use the normal path.
@@ -596,11 +599,10 @@ impl Server {
         };
 
         // Check if there's already a jarl-ignore comment that covers this rule
-        if insert_point.line > 0
-            && !insert_point.needs_leading_newline
-            && let Some(prev_line_text) = Self::get_line_text(content, insert_point.line - 1)
+        if !insert_point.needs_leading_newline
+            && let Some(prev_line_text) = content[..insert_point.offset].lines().next_back()
             && let Some((_, existing_rules)) =
-                suppression_edit::parse_existing_suppression(&prev_line_text)
+                suppression_edit::parse_existing_suppression(prev_line_text)
         {
             match existing_rules {
                 Some(rules) if rules.iter().any(|r| r == rule_name) => {
@@ -613,28 +615,22 @@ impl Server {
             }
         }
 
-        // Always insert a new comment line (each rule gets its own comment with its own explanation)
-        let (insert_range, new_comment) = if insert_point.needs_leading_newline {
-            // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
-            let comment = suppression_edit::format_suppression_comments(
-                &[rule_name],
-                "<reason>",
-                &insert_point.indent,
-                true,
-            );
-            (types::Range::new(insert_pos, insert_pos), comment)
-        } else {
-            // Insert new comment at line start
-            let line_start_pos = types::Position::new(insert_point.line as u32, 0);
-            let comment = suppression_edit::format_suppression_comments(
-                &[rule_name],
-                "<reason>",
-                &insert_point.indent,
-                false,
-            );
-            (types::Range::new(line_start_pos, line_start_pos), comment)
-        };
+        // Always insert a new comment line (each rule gets its own comment with its own explanation).
+        // The insertion point is at the start of a line, or right before the expression with a
+        // leading newline.
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            insert_point.offset,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
+        let new_comment = suppression_edit::format_suppression_comments(
+            &[rule_name],
+            "<reason>",
+            &insert_point.indent,
+            insert_point.needs_leading_newline,
+        );
+        let insert_range = types::Range::new(insert_pos, insert_pos);
 
         let text_edit = types::TextEdit { range: insert_range, new_text: new_comment };
 
@@ -681,6 +677,9 @@ impl Server {
         let fix_data = diagnostic.data.as_ref()?;
         let fix: crate::lint::DiagnosticFix = serde_json::from_value(fix_data.clone()).ok()?;
         let rule_name = &fix.rule_name;
+        if !Self::can_be_ignored(rule_name) {
+            return None;
+        }
 
         // Find the chunk that contains the diagnostic.
         let chunks = jarl_core::rmd::extract_r_chunks(content);
@@ -701,7 +700,12 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            chunk.start_byte,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -724,18 +728,10 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
-    /// Get the text of a specific line
-    fn get_line_text(content: &str, line_number: usize) -> Option<String> {
-        content.lines().nth(line_number).map(|s| s.to_string())
+    /// Violations about the comments themselves can't be suppressed by another comment.
+    fn can_be_ignored(rule_name: &str) -> bool {
+        use jarl_core::rule_set::{Category, Rule};
+        Rule::from_name(rule_name).is_none_or(|rule| !rule.has_category(Category::Comm))
     }
 }
 
-- 
2.43.0


From 43a6c26699b99b70d8734ef2786481a8a8a2882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 46/66] fix: analyse packages after fixes are applied

---
 crates/jarl-core/src/check.rs | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index ed53c2a..373ada6 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -48,19 +48,45 @@ pub fn check_all(configs: Vec<Config>) -> Vec<(String, Result<Vec<Diagnostic>, a
 }
 
 fn check_config(config: Config) -> Vec<(String, Result<Vec<Diagnostic>, anyhow::Error>)> {
-    let pkg = compute_package_analysis(&config.paths, &config);
+    let fixing = config.apply_fixes || config.apply_unsafe_fixes;
+
+    // Fixes move the code, and they can add or remove definitions and uses, so
+    // the package analysis has to wait until they are applied.
+    let pkg = if fixing {
+        PackageAnalysis::default()
+    } else {
+        compute_package_analysis(&config.paths, &config)
+    };
 
     // Wrap config and package analysis in Arc to avoid expensive clones in parallel execution
     let config = Arc::new(config);
     let pkg = Arc::new(pkg);
 
-    config
+    let results: Vec<_> = config
         .paths
         .par_iter()
         .map(|file| {
             let res = check_path(file, Arc::clone(&config), Arc::clone(&pkg));
             (relativize_path(file), res)
         })
+        .collect();
+
+    if !fixing {
+        return results;
+    }
+
+    let pkg = Arc::new(compute_package_analysis(&config.paths, &config));
+    if pkg.is_empty() {
+        return results;
+    }
+    config
+        .paths
+        .par_iter()
+        .zip(results)
+        .map(|(file, (name, res))| {
+            let res = res.and_then(|_| lint_only(file, Arc::clone(&config), Arc::clone(&pkg)));
+            (name, res)
+        })
         .collect()
 }
 
-- 
2.43.0


From db35d74dcbe3215a156d29b035313ae6f82f2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:55 +0000
Subject: [PATCH 47/66] fix: read all directives of NAMESPACE files

---
 .../base/unused_function/unused_function.rs   | 190 +++++++++---------
 1 file changed, 98 insertions(+), 92 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..5261316 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -55,30 +55,69 @@ use crate::package::{FileScope, SharedFileData};
 /// # `check_length()` isn't exported but and isn't used anywhere, so it is
 /// # reported.
 /// ```
-fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
-    // Find a NAMESPACE directive (e.g. `S3method`, `export`) in a line and
-    // return its parenthesized arguments. Handles lines where the directive is
-    // preceded by an `if (...)` guard, e.g.:
-    //   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
-
-    // Find `directive(` in the line
-    let dir_with_paren = format!("{directive}(");
-    let start = line.find(&dir_with_paren)?;
-    let args_start = start + dir_with_paren.len();
-
-    // Make sure the directive is not part of a longer word
-    // (e.g. "exportPattern" should not match "export")
-    if start > 0 {
-        let prev = line.as_bytes()[start - 1];
-        if prev.is_ascii_alphanumeric() || prev == b'_' {
-            return None;
+/// Find the directives (e.g. `S3method(print, foo)`) of a NAMESPACE file and
+/// return their names and arguments, without quotes.
+///
+/// A NAMESPACE file is R code: directives can span several lines, several of
+/// them can be on one line, they can be followed by a comment and they can be
+/// preceded by an `if (...)` guard, e.g.:
+///   `if (getRversion() >= "4.4.0") S3method(sort_by, data.table)`
+fn namespace_directives(content: &str) -> Vec<(String, Vec<String>)> {
+    let is_identifier = |c: char| c.is_alphanumeric() || c == '.' || c == '_';
+    let mut directives = Vec::new();
+    // Names of the calls we are in. Those that are not directives are "".
+    let mut calls: Vec<(String, Vec<String>)> = Vec::new();
+    let mut last_identifier = String::new();
+    let mut chars = content.chars().peekable();
+
+    while let Some(c) = chars.next() {
+        let mut text = String::new();
+        match c {
+            '#' => while chars.next_if(|c| *c != '\n').is_some() {},
+            '"' | '\'' | '`' => {
+                while let Some(inner) = chars.next() {
+                    match inner {
+                        '\\' => text.extend(chars.next()),
+                        _ if inner == c => break,
+                        _ => text.push(inner),
+                    }
+                }
+            }
+            _ if is_identifier(c) => {
+                text.push(c);
+                while let Some(next) = chars.next_if(|c| is_identifier(*c)) {
+                    text.push(next);
+                }
+                last_identifier.clone_from(&text);
+            }
+            '(' => {
+                calls.push((std::mem::take(&mut last_identifier), vec![String::new()]));
+                continue;
+            }
+            ')' => {
+                directives.extend(calls.pop());
+                continue;
+            }
+            ',' => {
+                if let Some((_, args)) = calls.last_mut() {
+                    args.push(String::new());
+                }
+                continue;
+            }
+            _ if c.is_whitespace() => continue,
+            _ => text.push(c),
+        }
+        if !last_identifier.is_empty() && text != last_identifier {
+            last_identifier.clear();
+        }
+        if let Some((_, args)) = calls.last_mut()
+            && let Some(arg) = args.last_mut()
+        {
+            arg.push_str(&text);
         }
     }
 
-    // Find the matching closing paren
-    let rest = &line[args_start..];
-    let end = rest.rfind(')')?;
-    Some(&rest[..end])
+    directives
 }
 
 /// Parse a NAMESPACE file and return the set of exported function names.
@@ -89,83 +128,50 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
-
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
-            continue;
-        }
-
-        // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
-        //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
-        // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
-        for directive in [
-            "export",
-            "exportPattern",
-            "S3method",
-            "exportMethods",
-            "exportClasses",
-        ] {
-            if let Some(inner) = extract_directive(trimmed, directive) {
-                match directive {
-                    "export" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
-                        }
-                    }
-                    "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
-                                }
-                            }
-                        }
-                    }
-                    "S3method" => {
-                        // S3method(generic, class) or
-                        // S3method(pkg::generic, class) or
-                        // S3method(generic, class, method_fn)
-                        let parts: Vec<&str> = inner.splitn(4, ',').collect();
-                        if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
-
-                            // Strip optional pkg:: or pkg::: prefix
-                            let generic = raw_generic
-                                .rsplit_once("::")
-                                .map(|(_, g)| g)
-                                .unwrap_or(raw_generic);
-
-                            if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
-                                if !method_fn.is_empty() {
-                                    exports.insert(method_fn.to_string());
-                                }
-                            } else {
-                                exports.insert(format!("{generic}.{class}"));
-                            }
+    for (directive, args) in namespace_directives(content) {
+        match directive.as_str() {
+            "export" | "exportMethods" | "exportClasses" => {
+                exports.extend(args.into_iter().filter(|name| !name.is_empty()));
+            }
+            "exportPattern" => {
+                for pattern in args {
+                    // In R, these classes aren't limited to ASCII.
+                    let pattern = pattern
+                        .replace("[:alpha:]", r"a-zA-Z\x{80}-\x{10FFFF}")
+                        .replace("[:alnum:]", r"a-zA-Z0-9\x{80}-\x{10FFFF}")
+                        .replace(r"\w", r"[a-zA-Z0-9_\x{80}-\x{10FFFF}]")
+                        .replace(r"\d", "[0-9]");
+                    // Everything may be exported if we can't tell.
+                    let re = Regex::new(&pattern).ok();
+                    for &name in all_names {
+                        if re.as_ref().is_none_or(|re| re.is_match(name)) {
+                            exports.insert(name.to_string());
                         }
                     }
-                    "exportMethods" | "exportClasses" => {
-                        for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
-                            if !name.is_empty() {
-                                exports.insert(name.to_string());
-                            }
+                }
+            }
+            "S3method" => {
+                // S3method(generic, class) or
+                // S3method(pkg::generic, class) or
+                // S3method(generic, class, method_fn)
+                if args.len() >= 2 {
+                    // Strip optional pkg:: or pkg::: prefix
+                    let generic = args[0]
+                        .rsplit_once("::")
+                        .map(|(_, g)| g)
+                        .unwrap_or(&args[0]);
+                    let class = &args[1];
+
+                    if args.len() >= 3 {
+                        if !args[2].is_empty() {
+                            exports.insert(args[2].clone());
                         }
+                    } else {
+                        exports.insert(format!("{generic}.{class}"));
                     }
-                    _ => {}
                 }
-                break;
             }
+            _ => {}
         }
     }
 
-- 
2.43.0


From 4354d6434272cd612cf28c167a67f3aaabd0cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:55 +0000
Subject: [PATCH 48/66] fix: attribute files to packages by where they are,
 read all names

---
 .../base/unused_function/unused_function.rs   | 62 +++++++++----------
 crates/jarl-core/src/package.rs               | 55 ++++++++++------
 2 files changed, 66 insertions(+), 51 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 5261316..adb2c1d 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -187,36 +187,29 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
 /// `name(` call patterns, we also cover indirect references like
 /// `do.call("name", ...)`, `lapply(xs, name)`, `match.fun(name)`, etc.
 pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
-    let mut symbols: HashMap<&str, usize> = HashMap::new();
-
-    for line in content.lines() {
+    // Skip regular comments but keep roxygen comments (#') since they
+    // may reference internal functions (e.g. via \Sexpr).
+    count_symbols(content.lines().filter(|line| {
         let trimmed = line.trim_start();
-        // Skip regular comments but keep roxygen comments (#') since they
-        // may reference internal functions (e.g. via \Sexpr).
-        if trimmed.starts_with('#') && !trimmed.starts_with("#'") {
-            continue;
-        }
+        !trimmed.starts_with('#') || trimmed.starts_with("#'")
+    }))
+}
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
-
-            // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
-                {
-                    i += 1;
-                }
-                let name = &line[start..i];
+/// Same as `scan_symbols()` for C/C++ code, where `#` doesn't start a comment.
+pub(crate) fn scan_cpp_symbols(content: &str) -> HashMap<String, usize> {
+    count_symbols(content.lines())
+}
+
+fn count_symbols<'a>(lines: impl Iterator<Item = &'a str>) -> HashMap<String, usize> {
+    let mut symbols: HashMap<&str, usize> = HashMap::new();
+
+    for line in lines {
+        // R identifiers start with a letter, `.`, or `_`
+        let words = line.split(|c: char| !c.is_alphanumeric() && c != '.' && c != '_');
+        for word in words {
+            let name = word.trim_start_matches(char::is_numeric);
+            if !name.is_empty() {
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
@@ -251,14 +244,17 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "h" | "hh" | "hpp")
     )
 }
 
-/// Extract a human-readable scope directory from a file path, e.g.
-/// `"tests/"` or `"inst/tests/"`. Used in help messages.
-fn scope_dir_from_path(rel_path: &Path) -> String {
-    let components: Vec<_> = rel_path
+/// Extract a human-readable scope directory from the path of a file in its
+/// package, e.g. `"tests/"` or `"inst/tests/"`. Used in help messages.
+fn scope_dir_from_path(file: &SharedFileData) -> String {
+    let package = Path::new(&file.root_key).parent();
+    let components: Vec<_> = package
+        .and_then(|package| file.rel_path.strip_prefix(package).ok())
+        .unwrap_or(&file.rel_path)
         .components()
         .map(|c| c.as_os_str().to_string_lossy().to_string())
         .collect();
@@ -467,7 +463,7 @@ pub(crate) fn compute_unused_from_shared(
                     let definitions = scope_definitions.get(name.as_str()).copied().unwrap_or(0);
 
                     if occurrences <= definitions {
-                        let scope_dir = scope_dir_from_path(&file.rel_path);
+                        let scope_dir = scope_dir_from_path(file);
                         let help = format!(
                             "Defined at {path}:{line}:{col} but never called in {scope_dir}",
                             path = file.rel_path.display()
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 4ed8f3f..d58328a 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -10,7 +10,7 @@ use crate::lints::base::duplicated_function_definition::duplicated_function_defi
     compute_duplicates_from_shared, scan_top_level_assignments,
 };
 use crate::lints::base::unused_function::unused_function::{
-    collect_files, compute_unused_from_shared, has_cpp_extension, scan_symbols,
+    collect_files, compute_unused_from_shared, has_cpp_extension, scan_cpp_symbols, scan_symbols,
 };
 use crate::rule_set::Rule;
 
@@ -24,7 +24,8 @@ pub(crate) enum FileScope {
     Tests,
     /// inst/tinytest/ or inst/tests/ — definitions checked only within this scope.
     Inst,
-    /// src/ — C/C++ files; no definition checking.
+    /// src/ — C/C++ files; no definition checking. Same for R files in
+    /// subdirectories of R/.
     Src,
 }
 
@@ -56,6 +57,12 @@ pub struct PackageAnalysis {
     pub unused_functions: HashMap<PathBuf, Vec<(String, TextRange, String)>>,
 }
 
+impl PackageAnalysis {
+    pub fn is_empty(&self) -> bool {
+        self.duplicate_assignments.is_empty() && self.unused_functions.is_empty()
+    }
+}
+
 /// Compute all package-level analysis for the given paths.
 ///
 /// Performs a single parallel scan over all R-package files, reading each file
@@ -107,7 +114,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     // contribute to cross-file analysis (both duplicate and unused checks).
     // Also collect extra files (tests/, inst/tinytest/, inst/tests/, src/) and
     // NAMESPACE exports for the unused-function rule.
-    let mut extra_files: Vec<PathBuf> = Vec::new();
+    let mut extra_files: Vec<(PathBuf, FileScope)> = Vec::new();
     let mut excluded_r_files: Vec<PathBuf> = Vec::new();
     let mut namespace_contents: HashMap<PathBuf, String> = HashMap::new();
 
@@ -129,7 +136,11 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         let r_dir = root.join("R");
         if r_dir.is_dir() {
             for file in collect_files(&r_dir, has_r_extension) {
-                if let Ok(canon) = std::fs::canonicalize(&file)
+                if file.parent() != Some(r_dir.as_path()) {
+                    if check_unused && find_package_root(&file).as_ref() == Some(root) {
+                        extra_files.push((file, FileScope::Src));
+                    }
+                } else if let Ok(canon) = std::fs::canonicalize(&file)
                     && !r_dir_file_set.contains(&canon)
                 {
                     excluded_r_files.push(file);
@@ -139,17 +150,25 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
 
         if check_unused {
             // Collect test/tinytest R files
-            for dir_name in &["inst/tinytest", "inst/tests", "tests"] {
+            let r_file: fn(&Path) -> bool = has_r_extension;
+            for (dir_name, predicate, scope) in [
+                ("inst/tinytest", r_file, FileScope::Inst),
+                ("inst/tests", r_file, FileScope::Inst),
+                ("tests", r_file, FileScope::Tests),
+                // Collect C/C++ files in src/
+                ("src", has_cpp_extension, FileScope::Src),
+            ] {
                 let dir = root.join(dir_name);
                 if dir.is_dir() {
-                    extra_files.extend(collect_files(&dir, has_r_extension));
+                    // Tests may contain other packages, which are on their own.
+                    extra_files.extend(
+                        collect_files(&dir, predicate)
+                            .into_iter()
+                            .filter(|file| find_package_root(file).as_ref() == Some(root))
+                            .map(|file| (file, scope)),
+                    );
                 }
             }
-            // Collect C/C++ files in src/
-            let src_dir = root.join("src");
-            if src_dir.is_dir() {
-                extra_files.extend(collect_files(&src_dir, has_cpp_extension));
-            }
             // Read NAMESPACE content (cheap, one per package)
             if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
                 namespace_contents.insert(root.clone(), ns_content);
@@ -162,10 +181,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .iter()
         .map(|p| (p.as_path(), FileScope::R))
         .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
-        .chain(extra_files.iter().map(|p| {
-            let scope = file_scope_from_path(p);
-            (p.as_path(), scope)
-        }))
+        .chain(extra_files.iter().map(|(p, scope)| (p.as_path(), *scope)))
         .collect();
 
     // Single parallel scan: read each file once. All R files get
@@ -174,10 +190,12 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .par_iter()
         .filter_map(|(path, scope)| {
             let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
+            let symbol_counts = if !check_unused {
                 HashMap::new()
+            } else if has_cpp_extension(path) {
+                scan_cpp_symbols(&content)
+            } else {
+                scan_symbols(&content)
             };
 
             let assignments = match scope {
@@ -237,6 +255,7 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
 }
 
 /// Determine the `FileScope` for a non-R/ file based on its path.
+#[cfg(test)]
 fn file_scope_from_path(path: &Path) -> FileScope {
     let components: Vec<_> = path
         .components()
-- 
2.43.0


From a4768b0a10def0cd5c87537898fdf0ba239da177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:16 +0000
Subject: [PATCH 49/66] fix: find all unreachable code and say why it is

Blocks of the control flow graph know why nothing comes to them, instead of
guessing it from the graph; statements in braces are looked at; nothing is
reached after 'if (TRUE)' whose branch ends.
---
 .../src/lints/base/unreachable_code/README.md |  21 ++-
 .../base/unreachable_code/cfg/builder.rs      |  85 ++++++---
 .../lints/base/unreachable_code/cfg/graph.rs  |   5 +
 .../base/unreachable_code/cfg/reachability.rs | 166 +-----------------
 4 files changed, 74 insertions(+), 203 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/README.md b/crates/jarl-core/src/lints/base/unreachable_code/README.md
index 3a98f95..858b005 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/README.md
+++ b/crates/jarl-core/src/lints/base/unreachable_code/README.md
@@ -171,24 +171,23 @@ Not visited: `bb3` (unreachable!)
 
 ### Step 3: Determine Unreachability Reason
 
-For each unreachable block, we determine **why** it's unreachable by examining its context in priority order:
+The builder knows **why** a block has no incoming edge, and stores it in the block:
 
-1. **Check predecessors for direct terminators** (highest priority):
-   - If a predecessor has a `Return` terminator → `AfterReturn`
-   - If a predecessor has a `Stop` terminator → `AfterStop`
-   - If a predecessor has a `Break` terminator → `AfterBreak`
-   - If a predecessor has a `Next` terminator → `AfterNext`
+1. **Code after a terminator in the same sequence of statements**:
+   - `Return` terminator → `AfterReturn`
+   - `Stop` terminator → `AfterStop`
+   - `Break` terminator → `AfterBreak`
+   - `Next` terminator → `AfterNext`
 
-2. **Check if predecessor is a branch where all successors terminate** → `AfterBranchTerminating`:
-   - For if/else where both branches end with `return`/`stop()`, traverse all branch successors to verify they all terminate
+2. **Code after an if/else where control flow doesn't leave any branch** → `AfterBranchTerminating`:
+   - For if/else where both branches end with `return`/`stop()`/`break`/`next`
    - Example: `if (x) { return(1) } else { return(2) }` followed by unreachable code
 
-3. **Check for dead branches** → `DeadBranch`:
-   - If the block has predecessors in the `predecessors` list but no actual edges (from successors)
+3. **Branches of constant conditions** → `DeadBranch`:
    - This occurs with constant conditions: `if (TRUE)` or `if (FALSE)`
 
 4. **Fallback** → `NoPathFromEntry`:
-   - Used when no specific reason can be determined
+   - Used when no specific reason is known
 
 ### Step 4: Group Contiguous Unreachable Code
 
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5cc506..45b558d 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -1,6 +1,7 @@
 use std::collections::HashSet;
 
 use super::graph::{BlockId, ControlFlowGraph, Terminator};
+use super::reachability::UnreachableReason;
 use air_r_syntax::{
     RBinaryExpression, RBracedExpressions, RForStatement, RFunctionDefinition, RIfStatement,
     RParenthesizedExpression, RRepeatStatement, RSyntaxKind, RSyntaxNode, RWhileStatement,
@@ -145,6 +146,44 @@ impl<'a> CfgBuilder<'a> {
         false
     }
 
+    /// If control flow doesn't go on after this block, why the code after it is
+    /// unreachable.
+    fn terminator_reason(&self, block_id: BlockId) -> Option<UnreachableReason> {
+        match self.cfg.block(block_id)?.terminator {
+            Terminator::Return => Some(UnreachableReason::AfterReturn),
+            Terminator::Stop => Some(UnreachableReason::AfterStop),
+            Terminator::Break => Some(UnreachableReason::AfterBreak),
+            Terminator::Next => Some(UnreachableReason::AfterNext),
+            _ => None,
+        }
+    }
+
+    /// Create a block that can't be entered.
+    ///
+    /// Even though there is no edge to it, the block before it is stored in its
+    /// predecessors.
+    fn new_unreachable_block(
+        &mut self,
+        predecessor: BlockId,
+        reason: UnreachableReason,
+    ) -> BlockId {
+        let unreachable = self.cfg.new_block();
+        self.mark_unreachable(unreachable, predecessor, reason);
+        unreachable
+    }
+
+    fn mark_unreachable(
+        &mut self,
+        block_id: BlockId,
+        predecessor: BlockId,
+        reason: UnreachableReason,
+    ) {
+        if let Some(block) = self.cfg.block_mut(block_id) {
+            block.predecessors.push(predecessor);
+            block.unreachable_reason = Some(reason);
+        }
+    }
+
     /// Build a CFG from a function definition
     pub fn build(mut self, func: &RFunctionDefinition) -> ControlFlowGraph {
         let fields = func.as_fields();
@@ -195,20 +234,10 @@ impl<'a> CfgBuilder<'a> {
             current = self.build_statement(stmt, current, exit);
 
             // If we've hit a return or other terminator, remaining statements are unreachable
-            if let Some(block) = self.cfg.block(current)
-                && matches!(
-                    block.terminator,
-                    Terminator::Return | Terminator::Break | Terminator::Next | Terminator::Stop
-                )
-            {
+            if let Some(reason) = self.terminator_reason(current) {
                 // Create a new unreachable block for remaining statements
                 if idx + 1 < statements.len() {
-                    let unreachable = self.cfg.new_block();
-                    // Mark this block as having the terminator block as predecessor (for tracking)
-                    // Even though we don't add an edge, we store it in predecessors for analysis
-                    if let Some(unreachable_block) = self.cfg.block_mut(unreachable) {
-                        unreachable_block.predecessors.push(current);
-                    }
+                    let unreachable = self.new_unreachable_block(current, reason);
                     // Add all remaining statements to the unreachable block
                     for remaining_stmt in &statements[idx + 1..] {
                         self.add_statement(unreachable, remaining_stmt.clone());
@@ -243,6 +272,15 @@ impl<'a> CfgBuilder<'a> {
                 self.build_return(current, stmt.clone());
                 current
             }
+            RSyntaxKind::R_BRACED_EXPRESSIONS => {
+                let end = self.build_expression(stmt, current, exit);
+                // Don't group the unreachable code in the braces with the one
+                // that comes after them.
+                match self.cfg.block(end).and_then(|b| b.unreachable_reason) {
+                    Some(reason) => self.new_unreachable_block(end, reason),
+                    None => end,
+                }
+            }
             RSyntaxKind::R_IF_STATEMENT => {
                 if let Some(if_stmt) = RIfStatement::cast_ref(stmt) {
                     self.build_if_statement(&if_stmt, current, exit)
@@ -340,19 +378,12 @@ impl<'a> CfgBuilder<'a> {
                 Some(true) => {
                     // Only then branch is reachable
                     self.cfg.add_edge(current, then_block);
-                    // Mark else_block as unreachable by adding it as a predecessor
-                    // but not connecting it from current
-                    if let Some(else_b) = self.cfg.block_mut(else_block) {
-                        else_b.predecessors.push(current);
-                    }
+                    self.mark_unreachable(else_block, current, UnreachableReason::DeadBranch);
                 }
                 Some(false) => {
                     // Only else branch is reachable
                     self.cfg.add_edge(current, else_block);
-                    // Mark then_block as unreachable
-                    if let Some(then_b) = self.cfg.block_mut(then_block) {
-                        then_b.predecessors.push(current);
-                    }
+                    self.mark_unreachable(then_block, current, UnreachableReason::DeadBranch);
                 }
                 None => {
                     // Both branches are possible
@@ -427,7 +458,7 @@ impl<'a> CfgBuilder<'a> {
                     }
                 }
             }
-        } else {
+        } else if constant_value != Some(true) {
             // No else branch, just connect to after_if
             if let Some(b) = self.cfg.block_mut(else_block) {
                 b.terminator = Terminator::Goto;
@@ -435,13 +466,9 @@ impl<'a> CfgBuilder<'a> {
             self.cfg.add_edge(else_block, after_if);
         }
 
-        // If after_if has no incoming edges (both branches terminated),
-        // mark it as having the branch block as predecessor for proper
-        // unreachable code reason detection
-        if !self.has_incoming_edges(after_if)
-            && let Some(after_block) = self.cfg.block_mut(after_if)
-        {
-            after_block.predecessors.push(current);
+        // If after_if has no incoming edges, both branches terminated
+        if !self.has_incoming_edges(after_if) {
+            self.mark_unreachable(after_if, current, UnreachableReason::AfterBranchTerminating);
         }
 
         after_if
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
index 60d5660..c8dc9a0 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/graph.rs
@@ -1,3 +1,4 @@
+use super::reachability::UnreachableReason;
 use air_r_syntax::{RSyntaxNode, TextRange};
 use std::fmt;
 
@@ -25,6 +26,9 @@ pub struct BasicBlock {
     pub terminator: Terminator,
     /// Text range covering this block (for diagnostics)
     pub range: Option<TextRange>,
+    /// Why control flow never enters this block, for those that don't have any
+    /// incoming edge
+    pub unreachable_reason: Option<UnreachableReason>,
 }
 
 impl BasicBlock {
@@ -36,6 +40,7 @@ impl BasicBlock {
             predecessors: Vec::new(),
             terminator: Terminator::None,
             range: None,
+            unreachable_reason: None,
         }
     }
 }
diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
index 97bd3c1..7a0395c 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/reachability.rs
@@ -77,7 +77,9 @@ pub fn find_unreachable_code(cfg: &ControlFlowGraph) -> Vec<UnreachableCodeInfo>
 
         if !reachable.contains(&block.id) {
             // This block is unreachable
-            let reason = determine_unreachable_reason(cfg, block.id);
+            let reason = block
+                .unreachable_reason
+                .unwrap_or(UnreachableReason::NoPathFromEntry);
 
             // If block has statements, collect them
             if !block.statements.is_empty() {
@@ -133,168 +135,6 @@ pub fn find_unreachable_code(cfg: &ControlFlowGraph) -> Vec<UnreachableCodeInfo>
     unreachable
 }
 
-/// Determine why a block is unreachable by examining its context
-///
-/// Priority order:
-/// 1. Check if a predecessor has a terminator (return/break/next)
-/// 2. Check if predecessor is a branch where all successors terminate (if/else with returns in all branches)
-/// 3. Check if it's a dead branch (has predecessor pointer but no actual edge)
-/// 4. Default to NoPathFromEntry
-fn determine_unreachable_reason(cfg: &ControlFlowGraph, block_id: BlockId) -> UnreachableReason {
-    use super::graph::Terminator;
-
-    // Check the block's predecessors to find what terminator caused unreachability
-    if let Some(block) = cfg.block(block_id) {
-        // Priority 1: Check for terminators (return/break/next) - these take priority
-        for &pred_id in &block.predecessors {
-            if let Some(pred_block) = cfg.block(pred_id) {
-                match &pred_block.terminator {
-                    Terminator::Return => return UnreachableReason::AfterReturn,
-                    Terminator::Break => return UnreachableReason::AfterBreak,
-                    Terminator::Next => return UnreachableReason::AfterNext,
-                    Terminator::Stop => return UnreachableReason::AfterStop,
-                    _ => {}
-                }
-            }
-        }
-
-        // Priority 2: Check if predecessor is a branch where all successors terminate
-        // This handles the case where an if/else has returns in all branches
-        for &pred_id in &block.predecessors {
-            if let Some(pred_block) = cfg.block(pred_id)
-                && matches!(pred_block.terminator, Terminator::Branch)
-            {
-                // Check all successors of the branch to find what terminator they end with
-                if let Some(reason) = find_branch_terminator_reason(cfg, pred_id) {
-                    return reason;
-                }
-            }
-        }
-
-        // Priority 3: Check if it's a dead branch from a constant condition
-        // Dead branches have a predecessor pointer (for tracking) but no actual CFG edge
-        // This happens when we detect `if (TRUE)` or `if (FALSE)` during CFG construction
-        if !block.predecessors.is_empty() {
-            let has_incoming_edge = block.predecessors.iter().any(|&pred_id| {
-                cfg.block(pred_id)
-                    .map(|pred| pred.successors.contains(&block_id))
-                    .unwrap_or(false)
-            });
-
-            if !has_incoming_edge {
-                // Has predecessor but no actual edge - this is a dead branch from a constant condition
-                return UnreachableReason::DeadBranch;
-            }
-        }
-    }
-
-    // Priority 4: Default reason
-    UnreachableReason::NoPathFromEntry
-}
-
-/// Find the terminator reason for a branch by traversing its successors
-///
-/// This handles if/else statements where all branches terminate (return/break/next/stop).
-/// We traverse the branch's successors to find what terminator they end with.
-fn find_branch_terminator_reason(
-    cfg: &ControlFlowGraph,
-    branch_id: BlockId,
-) -> Option<UnreachableReason> {
-    let branch_block = cfg.block(branch_id)?;
-
-    // We need ALL branches to terminate for code after the if/else to be unreachable
-    if branch_block.successors.is_empty() {
-        return None;
-    }
-
-    // Use a shared cache for all branches to avoid recomputing paths
-    let mut cache = rustc_hash::FxHashMap::default();
-
-    // Collect terminators from all branches
-    let mut all_terminate = true;
-    let mut found_return = false;
-    let mut found_stop = false;
-
-    for &succ_id in &branch_block.successors {
-        if let Some(reason) = find_terminator_in_path(cfg, succ_id, &mut cache) {
-            match reason {
-                UnreachableReason::AfterReturn => found_return = true,
-                UnreachableReason::AfterStop => found_stop = true,
-                // Break/Next inside an if/else would exit to a loop, not make code after if unreachable
-                _ => {}
-            }
-        } else {
-            // This branch doesn't terminate - code after the if/else is reachable
-            all_terminate = false;
-        }
-    }
-
-    // Only return AfterBranchTerminating if ALL branches terminate
-    if all_terminate && (found_return || found_stop) {
-        Some(UnreachableReason::AfterBranchTerminating)
-    } else {
-        None
-    }
-}
-
-/// Recursively find what terminator a path ends with
-///
-/// Uses a cache to store computed results, avoiding both infinite loops and redundant computation.
-/// When multiple branches converge to the same terminator, we return the cached result.
-fn find_terminator_in_path(
-    cfg: &ControlFlowGraph,
-    block_id: BlockId,
-    cache: &mut rustc_hash::FxHashMap<BlockId, Option<UnreachableReason>>,
-) -> Option<UnreachableReason> {
-    use super::graph::Terminator;
-
-    // Check cache first
-    if let Some(&cached) = cache.get(&block_id) {
-        return cached;
-    }
-
-    // Mark as in-progress (None) to detect cycles
-    cache.insert(block_id, None);
-
-    let block = cfg.block(block_id)?;
-
-    let result = match &block.terminator {
-        Terminator::Return => Some(UnreachableReason::AfterReturn),
-        Terminator::Stop => Some(UnreachableReason::AfterStop),
-        Terminator::Break | Terminator::Next => {
-            // These exit to loop structures, not relevant for if/else termination
-            None
-        }
-        Terminator::Goto => {
-            // Follow the goto to its successor
-            if let Some(&next) = block.successors.first() {
-                find_terminator_in_path(cfg, next, cache)
-            } else {
-                None
-            }
-        }
-        Terminator::Branch => {
-            // Nested if - check if all branches terminate
-            let mut result = None;
-            for &succ_id in &block.successors {
-                if let Some(reason) = find_terminator_in_path(cfg, succ_id, cache) {
-                    result = Some(reason);
-                } else {
-                    // One branch doesn't terminate, so the nested if doesn't fully terminate
-                    cache.insert(block_id, None);
-                    return None;
-                }
-            }
-            result
-        }
-        Terminator::Loop | Terminator::None => None,
-    };
-
-    // Cache the result
-    cache.insert(block_id, result);
-    result
-}
-
 /// Find all blocks reachable from the entry block using BFS (Breadth-First Search)
 ///
 /// BFS is a graph traversal algorithm that explores nodes level by level:
-- 
2.43.0


From b6e9b97b7f6909d2676eefaff9a3011294373272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:01 +0000
Subject: [PATCH 50/66] fix: a lone 'return' does not end a function

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs  | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index 45b558d..037a1e2 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -268,10 +268,6 @@ impl<'a> CfgBuilder<'a> {
                 self.build_next(current, stmt.clone());
                 current
             }
-            RSyntaxKind::R_RETURN_EXPRESSION => {
-                self.build_return(current, stmt.clone());
-                current
-            }
             RSyntaxKind::R_BRACED_EXPRESSIONS => {
                 let end = self.build_expression(stmt, current, exit);
                 // Don't group the unreachable code in the braces with the one
-- 
2.43.0


From b4d11a0e4a87d4a9f249be80e027a668175c3e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:23 +0000
Subject: [PATCH 51/66] fix: do not rewrite calls that take their first
 argument from a pipe

---
 .../src/lints/base/class_equals/class_equals.rs       |  6 ++++++
 .../src/lints/base/length_test/length_test.rs         |  6 ++++++
 crates/jarl-core/src/lints/base/lengths/lengths.rs    |  6 ++++++
 crates/jarl-core/src/lints/base/list2df/list2df.rs    |  6 ++++++
 .../src/lints/base/matrix_apply/matrix_apply.rs       |  6 ++++++
 .../src/lints/base/outer_negation/outer_negation.rs   |  5 +++++
 .../lints/base/redundant_ifelse/redundant_ifelse.rs   |  6 ++++++
 .../jarl-core/src/lints/base/sample_int/sample_int.rs |  6 ++++++
 crates/jarl-core/src/lints/base/seq2/seq2.rs          |  6 ++++++
 .../src/lints/base/system_file/system_file.rs         |  6 ++++++
 .../src/lints/testthat/expect_length/expect_length.rs |  6 ++++++
 .../src/lints/testthat/expect_match/expect_match.rs   |  6 ++++++
 .../src/lints/testthat/expect_named/expect_named.rs   |  6 ++++++
 .../lints/testthat/expect_no_match/expect_no_match.rs |  6 ++++++
 .../src/lints/testthat/expect_not/expect_not.rs       |  6 ++++++
 .../src/lints/testthat/expect_null/expect_null.rs     | 11 +++++++++++
 .../lints/testthat/expect_s3_class/expect_s3_class.rs |  6 ++++++
 .../testthat/expect_true_false/expect_true_false.rs   |  6 ++++++
 .../src/lints/testthat/expect_type/expect_type.rs     | 11 +++++++++++
 crates/jarl-core/src/utils_ast.rs                     |  9 +++++++--
 20 files changed, 130 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
index 902c20c..9020068 100644
--- a/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
+++ b/crates/jarl-core/src/lints/base/class_equals/class_equals.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_position, get_function_name, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -133,6 +134,11 @@ pub fn class_identical(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     // Note: Unlike class_equals with == and %in%, we report identical() in all contexts,
     // not just in if/while conditions, because identical() is almost never the right choice
     // when comparing class() output with a string.
diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index dbb34e6..71e0dcf 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
 use anyhow::Context;
@@ -48,6 +49,11 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let arguments = arguments?.items();
     let mut arg_is_binary_expr = false;
     let mut operator_text: String = "".to_string();
diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 4d5c4d5..46ef66b 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use anyhow::Context;
 use biome_rowan::AstNode;
@@ -55,6 +56,11 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let arguments = arguments?.items();
     let arg_x = unwrap_or_return_none!(get_arg_by_name_then_position(&arguments, "x", 1));
     let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
diff --git a/crates/jarl-core/src/lints/base/list2df/list2df.rs b/crates/jarl-core/src/lints/base/list2df/list2df.rs
index b6d54ea..760c1d5 100644
--- a/crates/jarl-core/src/lints/base/list2df/list2df.rs
+++ b/crates/jarl-core/src/lints/base/list2df/list2df.rs
@@ -2,6 +2,7 @@ use crate::diagnostic::*;
 use crate::utils::{
     get_arg_by_name_then_position, get_arg_by_position, get_function_name, node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -61,6 +62,11 @@ pub fn list2df(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let what = unwrap_or_return_none!(get_arg_by_name_then_position(&arguments, "what", 1));
     let args = unwrap_or_return_none!(get_arg_by_name_then_position(&arguments, "args", 2));
 
diff --git a/crates/jarl-core/src/lints/base/matrix_apply/matrix_apply.rs b/crates/jarl-core/src/lints/base/matrix_apply/matrix_apply.rs
index 3173904..437fa21 100644
--- a/crates/jarl-core/src/lints/base/matrix_apply/matrix_apply.rs
+++ b/crates/jarl-core/src/lints/base/matrix_apply/matrix_apply.rs
@@ -2,6 +2,7 @@ use crate::diagnostic::*;
 use crate::utils::{
     get_arg_by_name, get_arg_by_name_then_position, get_function_name, node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
@@ -61,6 +62,11 @@ pub fn matrix_apply(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
     let x = get_arg_by_name_then_position(&args, "X", 1);
     let margin = get_arg_by_name_then_position(&args, "MARGIN", 2);
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index 6ccbeed..2dd02b2 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -43,6 +43,11 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     };
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // Only check calls with exactly one argument
diff --git a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
index 9d1077d..25e930b 100644
--- a/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
+++ b/crates/jarl-core/src/lints/base/redundant_ifelse/redundant_ifelse.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -45,6 +46,11 @@ pub fn redundant_ifelse(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
     let n_args = args.iter().collect::<Vec<_>>().len();
 
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index a58ac74..f376d81 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -57,6 +58,11 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let n = get_arg_by_name_then_position(&args, "n", 1);
 
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
diff --git a/crates/jarl-core/src/lints/base/seq2/seq2.rs b/crates/jarl-core/src/lints/base/seq2/seq2.rs
index 17e8b57..0c4c33f 100644
--- a/crates/jarl-core/src/lints/base/seq2/seq2.rs
+++ b/crates/jarl-core/src/lints/base/seq2/seq2.rs
@@ -1,3 +1,4 @@
+use crate::utils_ast::AstNodeExt;
 use crate::{
     diagnostic::*,
     utils::{get_function_name, node_contains_comments},
@@ -48,6 +49,11 @@ pub fn seq2(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let items = ast.arguments()?.items();
 
     // Don't want to report cases like seq(length(x), 2) or seq().
diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index d006a6c..244d64f 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, get_named_args, get_unnamed_args, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 pub struct SystemFile;
@@ -50,6 +51,11 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = arguments.items();
     let values = get_unnamed_args(&args);
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs b/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
index eecebda..4d3be1e 100644
--- a/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_length/expect_length.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -42,6 +43,11 @@ pub fn expect_length(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
diff --git a/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs b/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
index dd1a009..d5e497a 100644
--- a/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_match/expect_match.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     get_nested_functions_content, get_unnamed_args, node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -78,6 +79,11 @@ pub fn expect_match(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(Some(Diagnostic::new(ExpectMatch, range, Fix::empty())));
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // Get first argument
diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index 92a421c..c9c71d8 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -40,6 +41,11 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
diff --git a/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs b/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
index 45927a7..74d1ffb 100644
--- a/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_no_match/expect_no_match.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     get_nested_functions_content, get_unnamed_args, node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -78,6 +79,11 @@ pub fn expect_no_match(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(Some(Diagnostic::new(ExpectNoMatch, range, Fix::empty())));
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // Get first argument
diff --git a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
index f4e646e..90e6a43 100644
--- a/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_not/expect_not.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -47,6 +48,11 @@ pub fn expect_not(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // Get the first argument (object)
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 981d435..30ba757 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -52,6 +53,11 @@ pub fn expect_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 }
 
 fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<Option<Diagnostic>> {
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
@@ -98,6 +104,11 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
 }
 
 fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
diff --git a/crates/jarl-core/src/lints/testthat/expect_s3_class/expect_s3_class.rs b/crates/jarl-core/src/lints/testthat/expect_s3_class/expect_s3_class.rs
index 2ead8ab..6cd10bc 100644
--- a/crates/jarl-core/src/lints/testthat/expect_s3_class/expect_s3_class.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_s3_class/expect_s3_class.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -64,6 +65,11 @@ pub fn expect_s3_class(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index ce1207b..fa336fc 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -41,6 +42,11 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // Get `object` and `expected` arguments
diff --git a/crates/jarl-core/src/lints/testthat/expect_type/expect_type.rs b/crates/jarl-core/src/lints/testthat/expect_type/expect_type.rs
index 514edc6..c005fd6 100644
--- a/crates/jarl-core/src/lints/testthat/expect_type/expect_type.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_type/expect_type.rs
@@ -3,6 +3,7 @@ use crate::utils::{
     get_arg_by_name_then_position, get_function_name, get_function_namespace_prefix,
     node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::{AstNode, AstSeparatedList};
 
@@ -55,6 +56,11 @@ fn check_expect_equal_typeof(
     ast: &RCall,
     function_name: &str,
 ) -> anyhow::Result<Option<Diagnostic>> {
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // expect_type() doesn't have info=, label=, or expected.label= arguments
@@ -112,6 +118,11 @@ fn check_expect_equal_typeof(
 }
 
 fn check_expect_true_is_type(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
+    // Don't know how to handle pipes for now.
+    if ast.has_previous_pipe() {
+        return Ok(None);
+    }
+
     let args = ast.arguments()?.items();
 
     // expect_type() doesn't have info= or label= arguments
diff --git a/crates/jarl-core/src/utils_ast.rs b/crates/jarl-core/src/utils_ast.rs
index b505809..debe11e 100644
--- a/crates/jarl-core/src/utils_ast.rs
+++ b/crates/jarl-core/src/utils_ast.rs
@@ -59,11 +59,16 @@ pub trait AstNodeExt: AstNode<Language = RLanguage> {
             .unwrap_or(false)
     }
 
-    /// Returns true if this node has a pipe operator immediately before it.
+    /// Returns true if this node has a pipe operator (`|>` or `%>%`) immediately
+    /// before it.
     fn has_previous_pipe(&self) -> bool {
         self.syntax()
             .prev_sibling_or_token()
-            .map(|prev| prev.kind() == RSyntaxKind::PIPE)
+            .and_then(|prev| prev.into_token())
+            .map(|prev| {
+                prev.kind() == RSyntaxKind::PIPE
+                    || (prev.kind() == RSyntaxKind::SPECIAL && prev.text_trimmed() == "%>%")
+            })
             .unwrap_or(false)
     }
 
-- 
2.43.0


From 5fe3c34e1082d0fcb736d3fd5553dd27d422de54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:45 +0000
Subject: [PATCH 52/66] fix: keep the named arguments of nested and piped calls

---
 crates/jarl-core/src/utils.rs | 48 +++++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 987b625..1f4b721 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::Diagnostic;
 use crate::location::Location;
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
@@ -253,6 +254,10 @@ pub fn get_function_namespace_prefix(function: AnyRExpression) -> Option<String>
     None
 }
 
+/// Named arguments of the outer function that do not change what the nested
+/// functions return, see `get_nested_functions_content()`.
+const DROPPABLE_ARGS: &[&str] = &["na.rm", "arr.ind", "useNames", "info", "label"];
+
 /// Checks if an `RCall` matches one of these patterns and returns `(content, syntax_node)`:
 ///
 /// - `outer_fn(inner_fn(content))`: `syntax_node` is the outer call
@@ -272,8 +277,20 @@ pub fn get_nested_functions_content(
         return Ok(None);
     }
 
+    let arguments = arguments?.items();
+
+    // Other named arguments would be lost (e.g. `any(is.na(x), foo = y)`).
+    let has_other_named_args = get_named_args(&arguments).iter().any(|arg| {
+        !arg.name_clause()
+            .and_then(|clause| clause.name().ok())
+            .is_some_and(|name| DROPPABLE_ARGS.contains(&name.to_string().trim()))
+    });
+    if has_other_named_args {
+        return Ok(None);
+    }
+
     // Try nested case: outer_fn(inner_fn(content))
-    let unnamed_args = get_unnamed_args(&arguments?.items());
+    let unnamed_args = get_unnamed_args(&arguments);
 
     // Other unnamed arguments would be lost (e.g. `any(is.na(x), y)`).
     if unnamed_args.len() > 1 {
@@ -282,7 +299,9 @@ pub fn get_nested_functions_content(
 
     if let Some(arg) = unnamed_args.first() {
         let value = arg.value();
-        if let Some(inner) = value
+        // In `x |> outer_fn(inner_fn(content))`, `x` would be lost.
+        if !call.has_previous_pipe()
+            && let Some(inner) = value
             && let Some(inner_call) = inner.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
@@ -335,15 +354,22 @@ pub fn get_nested_functions_content(
             && let Some(inner_call) = inner_right?.as_r_call()
             && get_function_name(inner_call.as_fields().function?) == inner_fn
         {
-            let has_unnamed_args = inner_call
-                .as_fields()
-                .arguments?
-                .items()
-                .into_iter()
-                .any(|x| x.unwrap().name_clause().is_none());
-            if !has_unnamed_args {
-                let content = content_expr?.to_trimmed_string();
-                return Ok(Some((content, outer_syntax)));
+            let inner_args = inner_call.as_fields().arguments?.items();
+            let has_unnamed_args = !get_unnamed_args(&inner_args).is_empty();
+            // `x |> inner_fn(arg = _)`
+            let has_placeholder = get_named_args(&inner_args).iter().any(|arg| {
+                arg.value()
+                    .is_some_and(|value| value.to_trimmed_text() == "_")
+            });
+            if !has_unnamed_args && !has_placeholder {
+                let mut content = vec![content_expr?.to_trimmed_string()];
+                content.extend(
+                    inner_args
+                        .iter()
+                        .flatten()
+                        .map(|arg| arg.to_trimmed_string()),
+                );
+                return Ok(Some((content.join(", "), outer_syntax)));
             }
         }
     }
-- 
2.43.0


From 9bf06a89de045cae3cecf90bd65c64391d515f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:09 +0000
Subject: [PATCH 53/66] fix: match the arguments of lengths, string_boundary
 and outer_negation as R does

---
 .../src/lints/base/lengths/lengths.rs         | 28 +++++++++----------
 .../base/outer_negation/outer_negation.rs     |  5 ++++
 .../base/string_boundary/string_boundary.rs   | 25 ++++++++---------
 crates/jarl-core/src/utils.rs                 | 12 ++++++++
 4 files changed, 41 insertions(+), 29 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/lengths/lengths.rs b/crates/jarl-core/src/lints/base/lengths/lengths.rs
index 46ef66b..cd7d02b 100644
--- a/crates/jarl-core/src/lints/base/lengths/lengths.rs
+++ b/crates/jarl-core/src/lints/base/lengths/lengths.rs
@@ -1,8 +1,7 @@
 use crate::diagnostic::*;
-use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, match_args, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct Lengths;
@@ -51,10 +50,12 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     let function = function?;
     let fn_name = get_function_name(function);
 
-    let funs_to_watch = ["sapply", "vapply", "map_dbl", "map_int"];
-    if !funs_to_watch.contains(&fn_name.as_str()) {
-        return Ok(None);
-    }
+    let formals: &[&str] = match fn_name.as_str() {
+        "sapply" => &["X", "FUN"],
+        "vapply" => &["X", "FUN", "FUN.VALUE"],
+        "map_dbl" | "map_int" => &[".x", ".f"],
+        _ => return Ok(None),
+    };
 
     // Don't know how to handle pipes for now.
     if ast.has_previous_pipe() {
@@ -62,16 +63,13 @@ pub fn lengths(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
-    let arg_x = unwrap_or_return_none!(get_arg_by_name_then_position(&arguments, "x", 1));
-    let arg_fun = get_arg_by_name_then_position(&arguments, "FUN", 2);
+    // Other arguments (e.g. `simplify` or `USE.NAMES`) would be lost.
+    let matched = unwrap_or_return_none!(match_args(&arguments, formals));
+    let value = |i: usize| matched[i].as_ref().and_then(|arg| arg.value());
+    let arg_x = unwrap_or_return_none!(value(0));
 
-    if let Some(arg_fun) = arg_fun
-        && arg_fun
-            .value()
-            .context("Found named argument without any value")?
-            .into_syntax()
-            .text_trimmed()
-            == "length"
+    if let Some(arg_fun) = value(1)
+        && arg_fun.into_syntax().text_trimmed() == "length"
     {
         let range = ast.syntax().text_trimmed_range();
         let diagnostic = Diagnostic::new(
diff --git a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
index 2dd02b2..edbfa5e 100644
--- a/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
+++ b/crates/jarl-core/src/lints/base/outer_negation/outer_negation.rs
@@ -58,6 +58,11 @@ pub fn outer_negation(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
+    // `any(na.rm = !x)` is not about `x`.
+    if first_arg.name_clause().is_some() {
+        return Ok(None);
+    }
+
     let arg_value = unwrap_or_return_none!(first_arg.value());
     // Check if the argument is a negation, and not another unary expression
     // (e.g. `any(-x)`).
diff --git a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
index 0652e54..3745257 100644
--- a/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
+++ b/crates/jarl-core/src/lints/base/string_boundary/string_boundary.rs
@@ -1,5 +1,5 @@
 use crate::diagnostic::*;
-use crate::utils::{get_function_name, node_contains_comments};
+use crate::utils::{get_function_name, match_args, node_contains_comments};
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -63,21 +63,18 @@ pub fn string_boundary(ast: &RBinaryExpression) -> anyhow::Result<Option<Diagnos
 
     // Get arguments
     let arguments = call.arguments()?;
-    let args: Vec<_> = arguments
-        .items()
-        .into_iter()
-        .filter_map(|a| a.ok())
-        .collect();
-
-    // Need at least 3 arguments (x, start, end)
-    if args.len() < 3 {
-        return Ok(None);
-    }
+    let formals = if func_name == "substr" {
+        ["x", "start", "stop"]
+    } else {
+        ["text", "first", "last"]
+    };
+    let args = unwrap_or_return_none!(match_args(&arguments.items(), &formals));
 
     // Extract the expression values from arguments
-    let x_arg = unwrap_or_return_none!(args[0].value());
-    let start_arg = unwrap_or_return_none!(args[1].value());
-    let end_arg = unwrap_or_return_none!(args[2].value());
+    let value = |i: usize| args[i].as_ref().and_then(|arg| arg.value());
+    let x_arg = unwrap_or_return_none!(value(0));
+    let start_arg = unwrap_or_return_none!(value(1));
+    let end_arg = unwrap_or_return_none!(value(2));
 
     // Get the string being compared
     let string_text = string_expr.syntax().text_trimmed();
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 1f4b721..f30abf5 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -134,6 +134,18 @@ pub fn get_arg_by_name_then_position(
     }
 }
 
+/// Takes a list of arguments and gives those for the formal arguments `formals`,
+/// matched as R does: first by (exact) name, then the unnamed ones in order.
+/// Returns None if there are other arguments.
+pub fn match_args(args: &RArgumentList, formals: &[&str]) -> Option<Vec<Option<RArgument>>> {
+    let mut unnamed = get_unnamed_args(args).into_iter();
+    let matched: Vec<Option<RArgument>> = formals
+        .iter()
+        .map(|name| get_arg_by_name(args, name).or_else(|| unnamed.next()))
+        .collect();
+    (matched.iter().flatten().count() == args.len()).then_some(matched)
+}
+
 /// Checks whether an argument named `name` or in position `pos` exist in the
 /// argument list passed as input.
 pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) -> bool {
-- 
2.43.0


From 2261f23b156b36ad58b78cb5fedc3f52ce61811b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:09 +0000
Subject: [PATCH 54/66] fix: arguments without a value do not make a check fail

---
 crates/jarl-core/src/lints/base/length_test/length_test.rs | 3 +--
 crates/jarl-core/src/lints/base/sample_int/sample_int.rs   | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index 71e0dcf..a188059 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -3,7 +3,6 @@ use crate::utils::{get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use anyhow::Context;
 use biome_rowan::AstNode;
 
 pub struct LengthTest;
@@ -64,7 +63,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = value.context("Found named argument without any value")?;
+                let value = unwrap_or_return_none!(value);
                 if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index f376d81..9ae83e4 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -68,7 +68,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
     let right_value = if let Some(n) = n {
-        let n_value = n.value().unwrap();
+        let n_value = unwrap_or_return_none!(n.value());
         if let Some(n_value) = n_value.as_r_binary_expression() {
             let RBinaryExpressionFields { left, operator, right } = n_value.as_fields();
             let left = left?;
-- 
2.43.0


From 0d03c80a3d1ee9c8bed7a57d45282150a82b90b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:34 +0000
Subject: [PATCH 55/66] fix: do not lose or invent arguments when rewriting
 calls

---
 .../src/lints/base/fixed_regex/fixed_regex.rs | 13 +++++++++----
 .../src/lints/base/sample_int/sample_int.rs   | 13 ++++---------
 .../src/lints/base/system_file/system_file.rs | 19 ++++++++++---------
 .../testthat/expect_named/expect_named.rs     |  7 ++++++-
 .../lints/testthat/expect_null/expect_null.rs | 12 +++++++++++-
 5 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
index a4d0b10..6d2bdbb 100644
--- a/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
+++ b/crates/jarl-core/src/lints/base/fixed_regex/fixed_regex.rs
@@ -1,6 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::drop_arg_by_name_or_position;
 use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -60,12 +61,12 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         _ => return Ok(None),
     };
 
-    // Check if fixed is already set to TRUE
+    // Check if fixed is already set to something else than FALSE
     if let Some(fixed_arg) = get_arg_by_name_then_position(&args, "fixed", fixed_position)
-        && let Some(value) = fixed_arg.value()
-        && value.syntax().text_trimmed() == "TRUE"
+        && fixed_arg
+            .value()
+            .is_none_or(|value| value.syntax().text_trimmed() != "FALSE")
     {
-        // fixed = TRUE is already set, no need to lint
         return Ok(None);
     }
 
@@ -86,6 +87,10 @@ pub fn fixed_regex(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     // Get the pattern argument (first argument for all functions)
     let pattern_arg = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "pattern", 1));
+    // In `x |> gsub("a", "b")`, the pattern is `x`.
+    if pattern_arg.name_clause().is_none() && ast.has_previous_pipe() {
+        return Ok(None);
+    }
     let pattern_value = unwrap_or_return_none!(pattern_arg.value());
 
     // Check if the pattern is a string literal
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index 9ae83e4..bd4e1b8 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -88,15 +88,10 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let other_args = drop_arg_by_name_or_position(&args, "n", 1);
     let inner_content = match other_args {
-        Some(x) => {
-            let out = x
-                .iter()
-                .map(|x| x.syntax().text_trimmed().to_string())
-                .collect::<Vec<_>>()
-                .join(", ");
-
-            [right_value, out].join(", ")
-        }
+        Some(x) => std::iter::once(right_value)
+            .chain(x.iter().map(|x| x.syntax().text_trimmed().to_string()))
+            .collect::<Vec<_>>()
+            .join(", "),
         None => right_value,
     };
     let range = ast.syntax().text_trimmed_range();
diff --git a/crates/jarl-core/src/lints/base/system_file/system_file.rs b/crates/jarl-core/src/lints/base/system_file/system_file.rs
index 244d64f..48b6d5c 100644
--- a/crates/jarl-core/src/lints/base/system_file/system_file.rs
+++ b/crates/jarl-core/src/lints/base/system_file/system_file.rs
@@ -77,7 +77,8 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         })
         .collect::<Vec<&RArgument>>();
 
-    if file_path.len() != 1 {
+    // Other unnamed arguments would be lost.
+    if file_path.len() != 1 || values.len() != 1 {
         return Ok(None);
     }
 
@@ -95,14 +96,14 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let _ = unwrap_or_return_none!(file_path_inner_content.clone().next());
 
-    let file_path_inner_content = file_path_inner_content
-        .map(|x| x.unwrap().to_trimmed_string())
-        .collect::<Vec<String>>()
-        .join(", ");
+    // `fsep` is not an argument of `system.file()`.
+    if !get_named_args(&file_path_call.arguments()?.items()).is_empty() {
+        return Ok(None);
+    }
 
-    let other_args = get_named_args(&args)
-        .iter()
-        .map(|x| x.to_trimmed_string())
+    let inner_content = file_path_inner_content
+        .map(|x| x.unwrap().to_trimmed_string())
+        .chain(get_named_args(&args).iter().map(|x| x.to_trimmed_string()))
         .collect::<Vec<String>>()
         .join(", ");
 
@@ -111,7 +112,7 @@ pub fn system_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         SystemFile,
         range,
         Fix {
-            content: format!("system.file({}, {})", file_path_inner_content, other_args),
+            content: format!("system.file({inner_content})"),
             start: range.start().into(),
             end: range.end().into(),
             to_skip: node_contains_comments(ast.syntax()),
diff --git a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
index c9c71d8..1a996a8 100644
--- a/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_named/expect_named.rs
@@ -5,7 +5,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -48,6 +48,11 @@ pub fn expect_named(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let args = ast.arguments()?.items();
 
+    // Don't know how to handle other arguments, e.g. `info`, for now.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
diff --git a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
index 30ba757..f6cb6cf 100644
--- a/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_null/expect_null.rs
@@ -5,7 +5,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -60,6 +60,11 @@ fn check_expect_equal_null(ast: &RCall, function_name: &str) -> anyhow::Result<O
 
     let args = ast.arguments()?.items();
 
+    // Don't know how to handle other arguments, e.g. `info`, for now.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
 
@@ -111,6 +116,11 @@ fn check_expect_true_is_null(ast: &RCall) -> anyhow::Result<Option<Diagnostic>>
 
     let args = ast.arguments()?.items();
 
+    // Don't know how to handle other arguments, e.g. `info`, for now.
+    if args.iter().count() > 1 {
+        return Ok(None);
+    }
+
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let object_value = unwrap_or_return_none!(object.value());
 
-- 
2.43.0


From b22b505db72608606eeb268a4b2c68e088b1b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 56/66] fix: any number can be the condition of an if

---
 .../base/if_always_true/if_always_true.rs     | 40 +++++++++----------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
index 8c9ab0b..7897fce 100644
--- a/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
+++ b/crates/jarl-core/src/lints/base/if_always_true/if_always_true.rs
@@ -80,27 +80,14 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
 
         // 0 is always FALSE, any other number in R is TRUE
         AnyRExpression::AnyRValue(value) => {
-            if let Some(int) = value.as_r_integer_value() {
-                let token = int.value_token()?;
-                let text = token.text_trimmed();
-                let normalized = text.strip_suffix('L').unwrap_or(text);
-                let value: i64 = normalized.parse()?;
-                return Ok(Some(value != 0));
-            }
-            if let Some(double) = value.as_r_double_value() {
-                let token = double.value_token()?;
-                let text = token.text_trimmed();
-                let value: f64 = if text.starts_with('.') {
-                    format!("0{text}").parse()?
-                } else {
-                    text.parse()?
-                };
-                if value.is_nan() {
-                    return Ok(None);
-                }
-                return Ok(Some(value != 0.0));
-            }
-            Ok(None)
+            let token = if let Some(int) = value.as_r_integer_value() {
+                int.value_token()?
+            } else if let Some(double) = value.as_r_double_value() {
+                double.value_token()?
+            } else {
+                return Ok(None);
+            };
+            Ok(number_is_not_zero(token.text_trimmed()))
         }
 
         // Catch if ((TRUE)) or if ((FALSE))
@@ -170,3 +157,14 @@ fn evaluate_constant_condition(expr: &AnyRExpression) -> anyhow::Result<Option<b
         _ => Ok(None),
     }
 }
+
+/// Whether the R number `text` (e.g. `10L`, `.5`, `1e5L`, `0x1F`) is not 0.
+fn number_is_not_zero(text: &str) -> Option<bool> {
+    let text = text.strip_suffix('L').unwrap_or(text);
+    if let Some(hex) = text.strip_prefix("0x").or_else(|| text.strip_prefix("0X")) {
+        let mantissa = hex.split(['p', 'P']).next().unwrap_or(hex);
+        return Some(mantissa.chars().any(|c| c != '0' && c != '.'));
+    }
+    let value: f64 = text.parse().ok()?;
+    (!value.is_nan()).then_some(value != 0.0)
+}
-- 
2.43.0


From abb047785fa075785465d4fa5593539a48261201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:48 +0000
Subject: [PATCH 57/66] fix: match the arguments of grepv, sample_int and sort
 as R does

---
 crates/jarl-core/src/lints/base/grepv/grepv.rs  | 17 ++++++++++++++---
 .../src/lints/base/sample_int/sample_int.rs     | 13 +++++++++----
 crates/jarl-core/src/lints/base/sort/sort.rs    |  7 ++++++-
 crates/jarl-core/src/utils.rs                   | 16 ++++++++++------
 4 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/grepv/grepv.rs b/crates/jarl-core/src/lints/base/grepv/grepv.rs
index 2a1e7b8..4656a33 100644
--- a/crates/jarl-core/src/lints/base/grepv/grepv.rs
+++ b/crates/jarl-core/src/lints/base/grepv/grepv.rs
@@ -1,7 +1,9 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_function_name, is_argument_present, node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
+    get_unnamed_args, node_contains_comments,
 };
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 pub struct Grepv;
@@ -58,9 +60,18 @@ pub fn grepv(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let items = arguments?.items();
 
-    let arg_value_is_present = is_argument_present(&items, "value", 5);
+    let value = unwrap_or_return_none!(get_arg_by_name_then_position(&items, "value", 5));
+    if value
+        .value()
+        .is_none_or(|x| x.as_r_true_expression().is_none())
+    {
+        return Ok(None);
+    }
 
-    if !arg_value_is_present {
+    // Dropping an unnamed `value` would shift the next unnamed arguments.
+    if value.name_clause().is_none()
+        && (get_unnamed_args(&items).len() > 5 || ast.has_previous_pipe())
+    {
         return Ok(None);
     }
 
diff --git a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
index bd4e1b8..9e7a41f 100644
--- a/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
+++ b/crates/jarl-core/src/lints/base/sample_int/sample_int.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{
-    drop_arg_by_name_or_position, get_arg_by_name_then_position, get_function_name,
-    node_contains_comments,
+    drop_arg_by_name_or_position, get_arg_by_name, get_arg_by_name_then_position,
+    get_function_name, node_contains_comments,
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
@@ -63,7 +63,12 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    let n = get_arg_by_name_then_position(&args, "n", 1);
+    let name = if get_arg_by_name(&args, "x").is_some() {
+        "x"
+    } else {
+        "n"
+    };
+    let n = get_arg_by_name_then_position(&args, name, 1);
 
     // Is the `n` argument of the form `1:x`? If so, keep the `x` part so it
     // can be reused in the fix.
@@ -86,7 +91,7 @@ pub fn sample_int(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     };
 
-    let other_args = drop_arg_by_name_or_position(&args, "n", 1);
+    let other_args = drop_arg_by_name_or_position(&args, name, 1);
     let inner_content = match other_args {
         Some(x) => std::iter::once(right_value)
             .chain(x.iter().map(|x| x.syntax().text_trimmed().to_string()))
diff --git a/crates/jarl-core/src/lints/base/sort/sort.rs b/crates/jarl-core/src/lints/base/sort/sort.rs
index e179b18..bc87d2a 100644
--- a/crates/jarl-core/src/lints/base/sort/sort.rs
+++ b/crates/jarl-core/src/lints/base/sort/sort.rs
@@ -1,7 +1,7 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name, get_function_name, get_unnamed_args, node_contains_comments};
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct Sort;
 
@@ -106,6 +106,11 @@ pub fn sort(ast: &RSubset) -> anyhow::Result<Option<Diagnostic>> {
         additional_args.push(method.to_trimmed_text());
     }
 
+    // Other named arguments of `order()` are further vectors to sort by.
+    if additional_args.len() + 1 != args.len() {
+        return Ok(None);
+    }
+
     let additional_args = additional_args.join(", ");
     let fix = if additional_args.is_empty() {
         format!("sort({})", function_outer.to_trimmed_text())
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index f30abf5..9ccc221 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -153,7 +153,7 @@ pub fn is_argument_present(args: &RArgumentList, name: &str, position: usize) ->
 }
 
 /// Takes a list of arguments and removes the one that is named `name` or the
-/// one in position `pos` if no argument was found in the first step.
+/// unnamed one in position `pos` if no argument was found in the first step.
 pub fn drop_arg_by_name_or_position(
     args: &RArgumentList,
     name: &str,
@@ -180,14 +180,18 @@ pub fn drop_arg_by_name_or_position(
         return Some(by_name);
     }
 
+    let mut n_unnamed = 0;
     let by_pos: Vec<RArgument> = args
         .iter()
-        .enumerate()
-        .filter_map(|(i, arg)| {
-            if i == pos - 1 {
-                return None;
+        .filter_map(|arg| {
+            let arg = arg.clone().unwrap();
+            if arg.name_clause().is_none() {
+                n_unnamed += 1;
+                if n_unnamed == pos {
+                    return None;
+                }
             }
-            Some(arg.clone().unwrap())
+            Some(arg)
         })
         .collect();
 
-- 
2.43.0


From 230a07aeaf5193be8f1fe2d3870895303c8398af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:10 +0000
Subject: [PATCH 58/66] fix: do not drop the other arguments of expect_equal(x,
 TRUE)

---
 .../lints/testthat/expect_true_false/expect_true_false.rs  | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
index fa336fc..dfab1b5 100644
--- a/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
+++ b/crates/jarl-core/src/lints/testthat/expect_true_false/expect_true_false.rs
@@ -5,7 +5,7 @@ use crate::utils::{
 };
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -49,6 +49,11 @@ pub fn expect_true_false(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
 
     let args = ast.arguments()?.items();
 
+    // Don't know how to handle other arguments, e.g. `tolerance`, for now.
+    if args.iter().count() > 2 {
+        return Ok(None);
+    }
+
     // Get `object` and `expected` arguments
     let object = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "object", 1));
     let expected = unwrap_or_return_none!(get_arg_by_name_then_position(&args, "expected", 2));
-- 
2.43.0


From e15204d5336a492ad4e4823b95fd19a9b3780b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:41 +0000
Subject: [PATCH 59/66] fix: a comment next to the name of an argument does not
 hide the name

---
 crates/jarl-core/src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9ccc221..c946326 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -96,7 +96,7 @@ pub fn get_arg_by_name(args: &RArgumentList, name: &str) -> Option<RArgument> {
             let name_clause = x.clone().unwrap().name_clause();
             if let Some(name_clause) = name_clause {
                 match name_clause.name() {
-                    Ok(name_clause) => name_clause.to_string().trim() == name,
+                    Ok(name_clause) => name_clause.to_trimmed_text() == name,
                     _ => false,
                 }
             } else {
@@ -167,7 +167,7 @@ pub fn drop_arg_by_name_or_position(
             let arg = arg.clone().unwrap();
             if let Some(name_clause) = arg.name_clause()
                 && let Ok(n) = name_clause.name()
-                && n.to_string().trim() == name
+                && n.to_trimmed_text() == name
             {
                 dropped_by_name = true;
                 return None;
@@ -299,7 +299,7 @@ pub fn get_nested_functions_content(
     let has_other_named_args = get_named_args(&arguments).iter().any(|arg| {
         !arg.name_clause()
             .and_then(|clause| clause.name().ok())
-            .is_some_and(|name| DROPPABLE_ARGS.contains(&name.to_string().trim()))
+            .is_some_and(|name| DROPPABLE_ARGS.contains(&name.to_trimmed_string().as_str()))
     });
     if has_other_named_args {
         return Ok(None);
-- 
2.43.0


From 57fc7a6c381d2f003ecf886b8d6375f55ee0c012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:18 +0000
Subject: [PATCH 60/66] fix: do not drop the other arguments of length()

---
 .../jarl-core/src/lints/base/length_test/length_test.rs   | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index a188059..3d6b6ed 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -3,7 +3,7 @@ use crate::utils::{get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 pub struct LengthTest;
 
@@ -54,6 +54,12 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let arguments = arguments?.items();
+
+    // Other arguments would be lost.
+    if arguments.len() > 1 {
+        return Ok(None);
+    }
+
     let mut arg_is_binary_expr = false;
     let mut operator_text: String = "".to_string();
     let mut lhs: String = "".to_string();
-- 
2.43.0


From 244c55ad075d111990cfd15f7789b10c59e4110e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:39 +0000
Subject: [PATCH 61/66] fix: duplicated arguments are named in their order, and
 for any callee

---
 .../duplicated_arguments.rs                   | 28 ++++++-------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
index 15aeb6d..6fc980d 100644
--- a/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
+++ b/crates/jarl-core/src/lints/base/duplicated_arguments/duplicated_arguments.rs
@@ -1,9 +1,6 @@
-use std::collections::{HashMap, HashSet};
-
 use crate::checker::Checker;
 use crate::diagnostic::*;
 use air_r_syntax::*;
-use anyhow::anyhow;
 use biome_rowan::AstNode;
 
 /// ## What it does
@@ -50,11 +47,8 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
             x.body()?.into_syntax().text_trimmed().to_string()
         }
         AnyRExpression::RReturnExpression(x) => x.into_syntax().text_trimmed().to_string(),
-        _ => {
-            return Err(anyhow!(
-                "couldn't find function name for duplicated_arguments linter.",
-            ));
-        }
+        // Something else that is called, e.g. `..1(x = 1)`.
+        x => x.into_syntax().text_trimmed().to_string(),
     };
 
     // https://github.com/etiennebacher/jarl/issues/172
@@ -119,17 +113,13 @@ pub fn duplicated_arguments(ast: &RCall, checker: &Checker) -> anyhow::Result<Op
     Ok(None)
 }
 
+/// The values that are there several times, in the order of their first appearance.
 fn get_duplicates(values: &[String]) -> Vec<String> {
-    let mut counts = HashMap::new();
-    for item in values {
-        *counts.entry(item).or_insert(0) += 1;
+    let mut duplicates: Vec<String> = vec![];
+    for (i, item) in values.iter().enumerate() {
+        if values[i + 1..].contains(item) && !duplicates.contains(item) {
+            duplicates.push(item.clone());
+        }
     }
-    let duplicates: HashSet<String> = counts
-        .into_iter()
-        .filter(|(_, count)| *count > 1)
-        .map(|(item, _)| item.clone())
-        .collect();
-
-    let duplicates_vec: Vec<String> = duplicates.into_iter().collect();
-    duplicates_vec
+    duplicates
 }
-- 
2.43.0


From 560f58d1338a6dbfac7e5332d6dd35f0c1dfd127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:39 +0000
Subject: [PATCH 62/66] fix: the index of a loop used in operators of its
 sequence is reported

---
 .../src/lints/base/for_loop_index/for_loop_index.rs      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs b/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
index acf81f1..a224bd8 100644
--- a/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
+++ b/crates/jarl-core/src/lints/base/for_loop_index/for_loop_index.rs
@@ -89,6 +89,15 @@ fn contains_identifier(expr: &AnyRExpression, target: &str) -> anyhow::Result<bo
             }
             false
         }
+        AnyRExpression::RBinaryExpression(x) => {
+            contains_identifier(&x.left()?, target)? || contains_identifier(&x.right()?, target)?
+        }
+        AnyRExpression::RUnaryExpression(x) => contains_identifier(&x.argument()?, target)?,
+        AnyRExpression::RParenthesizedExpression(x) => contains_identifier(&x.body()?, target)?,
+        // What is inside of brackets or after `$` can be the name of a column.
+        AnyRExpression::RSubset(x) => contains_identifier(&x.function()?, target)?,
+        AnyRExpression::RSubset2(x) => contains_identifier(&x.function()?, target)?,
+        AnyRExpression::RExtractExpression(x) => contains_identifier(&x.left()?, target)?,
         _ => false,
     };
 
-- 
2.43.0


From 72fc22768135f14d478cfb1b4dab0a2e6d47462d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:39 +0000
Subject: [PATCH 63/66] fix: only assignments in conditions and arguments are
 implicit, not those in bodies of loops and if

---
 .../implicit_assignment.rs                    | 115 ++++--------------
 1 file changed, 25 insertions(+), 90 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
index 78b248e..5a3e8db 100644
--- a/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
+++ b/crates/jarl-core/src/lints/base/implicit_assignment/implicit_assignment.rs
@@ -1,7 +1,6 @@
 use crate::check::Checker;
 use crate::diagnostic::*;
 use crate::utils::get_function_name;
-use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -55,30 +54,37 @@ pub fn implicit_assignment(
         return Ok(None);
     };
 
-    // We want to report the use of assignment in function arguments, but not
-    // when they're part of the body of some functions, e.g.
+    // We want to report the use of assignment in function arguments and in the
+    // conditions of `if`, `while` and `for`, but not when it's part of their
+    // body, e.g.
     // ```
     // local({
     //   x <- 1
     // })
+    // if (TRUE) x <- 1
+    // for (i in 1:2) if (i == 1) x <- 1
     // ```
-    // so we set `ancestor_is_arg = false` if an RBracedExpressions is a closer
-    // ancestor.
-    let ancestor_is_arg = {
-        let mut result = false;
-        for ancestor in ast.syntax().ancestors() {
-            if RBracedExpressions::can_cast(ancestor.kind()) {
-                // Found braced expressions first, so skip
-                result = false;
-                break;
-            } else if RArgument::can_cast(ancestor.kind()) {
-                // Found argument first, so include
-                result = true;
-                break;
-            }
+    // so we stop at the closest RBracedExpressions.
+    let mut ancestor_is_arg = false;
+    let mut ancestor_is_if = false;
+    let mut ancestor_is_while = false;
+    let mut ancestor_is_for = false;
+
+    let mut child = ast.syntax().clone();
+    while let Some(ancestor) = child.parent() {
+        if RBracedExpressions::can_cast(ancestor.kind()) {
+            break;
+        } else if RArgument::can_cast(ancestor.kind()) {
+            ancestor_is_arg = true;
+        } else if let Some(x) = RIfStatement::cast_ref(&ancestor) {
+            ancestor_is_if |= *x.condition()?.syntax() == child;
+        } else if let Some(x) = RWhileStatement::cast_ref(&ancestor) {
+            ancestor_is_while |= *x.condition()?.syntax() == child;
+        } else if let Some(x) = RForStatement::cast_ref(&ancestor) {
+            ancestor_is_for |= *x.sequence()?.syntax() == child;
         }
-        result
-    };
+        child = ancestor;
+    }
 
     // Do not report cases like `expect_message(x <- foo)` because this code
     // could test that `<-.foo` returns a message, which is a valid usage.
@@ -98,77 +104,6 @@ pub fn implicit_assignment(
         }
     }
 
-    // We want to skip cases like
-    // ```r
-    // if (TRUE) x <- 1
-    // for (i in 1:2) x <- 1
-    // while (TRUE) x <- 1
-    // ```
-    // i.e., we want to skip cases that are in the body of RIfStatement /
-    // RForStatement / RWhileStatement.
-
-    let ancestor_is_if = {
-        let mut result = false;
-
-        let in_if_body = ast.parent_is_if_body();
-        let in_else_body = ast.parent_is_else_body();
-
-        if !in_if_body && !in_else_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RIfStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-    let ancestor_is_while = {
-        let mut result = false;
-
-        let in_while_body = ast.parent_is_while_body();
-
-        if !in_while_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RWhileStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-    let ancestor_is_for = {
-        let mut result = false;
-
-        let in_for_body = ast.parent_is_for_body();
-
-        if !in_for_body {
-            for ancestor in ast.syntax().ancestors() {
-                if RBracedExpressions::can_cast(ancestor.kind()) {
-                    // Found braced expressions first, so skip
-                    result = false;
-                    break;
-                } else if RForStatement::can_cast(ancestor.kind()) {
-                    // Found argument first, so include
-                    result = true;
-                    break;
-                }
-            }
-        }
-        result
-    };
-
     if !ancestor_is_if && !ancestor_is_while && !ancestor_is_arg && !ancestor_is_for {
         return Ok(None);
     }
-- 
2.43.0


From ba21993597dea56bdfa964f9f2414cee7ff3e0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:39 +0000
Subject: [PATCH 64/66] fix: count the arguments of sprintf() as R does

---
 .../src/lints/base/sprintf/sprintf.rs         | 107 ++++++++++--------
 1 file changed, 58 insertions(+), 49 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
index 7ba7020..3d9e017 100644
--- a/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
+++ b/crates/jarl-core/src/lints/base/sprintf/sprintf.rs
@@ -1,10 +1,8 @@
 use crate::diagnostic::*;
-use crate::utils::{
-    get_arg_by_name_then_position, get_function_name, get_unnamed_args, node_contains_comments,
-};
+use crate::utils::{get_arg_by_name_then_position, get_function_name, node_contains_comments};
 use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
-use biome_rowan::AstNode;
+use biome_rowan::{AstNode, AstSeparatedList};
 
 /// ## What it does
 ///
@@ -102,30 +100,35 @@ pub fn sprintf(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
                 Some("Use directly the input of `sprintf()` instead.".to_string()),
             ),
             range,
-            Fix {
-                content: parse_result.output_string,
-                start: range.start().into(),
-                end: range.end().into(),
-                to_skip: node_contains_comments(ast.syntax()),
+            // Other arguments would be lost.
+            if args.len() > 1 {
+                Fix::empty()
+            } else {
+                Fix {
+                    content: parse_result.output_string,
+                    start: range.start().into(),
+                    end: range.end().into(),
+                    to_skip: node_contains_comments(ast.syntax()),
+                }
             },
         );
         return Ok(Some(diagnostic));
     }
 
-    let dots = get_unnamed_args(&args);
-    let len_dots = if fmt.name_clause().is_some() {
-        dots.len()
-    } else {
-        dots.len() - 1
-    };
+    // We don't know how many arguments `...` stands for.
+    if args.iter().flatten().any(|arg| {
+        arg.value()
+            .is_some_and(|value| matches!(value, AnyRExpression::RDots(_)))
+    }) {
+        return Ok(None);
+    }
 
-    // If any specifier uses positional references, use max position
-    // Otherwise, sum up all arguments consumed (including * for width/precision)
-    let expected_args = if parse_result.has_positional {
-        parse_result.max_position
-    } else {
-        parse_result.all_args_consumed.iter().sum()
-    };
+    // The names of the other arguments don't matter.
+    let len_dots = args.len() - 1;
+
+    // Specifiers without positional references consume the arguments one after
+    // the other (including * for width/precision).
+    let expected_args = parse_result.max_position.max(parse_result.n_consumed);
 
     if expected_args != len_dots {
         let range = ast.syntax().text_trimmed_range();
@@ -157,12 +160,11 @@ pub static SPRINTF_TYPE_CHARS: &[char] = &[
 struct SprintfParseResult {
     // Count unique special chars, e.g. `'hello %1$s %1$s'` returns 1.
     n_unique_special_chars: usize,
-    // Number of args consumed (1 + * for width + * for precision)
-    all_args_consumed: Vec<usize>,
+    // Number of args consumed by the special chars without an index, and by the
+    // `*` without an index that they have for width and precision.
+    n_consumed: usize,
     // Count invalid special chars, e.g. `'hello %s %y'` returns 1.
     invalid_positions: Vec<usize>,
-    // Check if any special char has an index, e.g. `'hello %s %1$s'` returns true.
-    has_positional: bool,
     // Find the highest index, e.g. `'hello %1s %1$s %2$s'` returns 2.
     max_position: usize,
     // Output string: only here for the special case of "%%", which is converted
@@ -170,6 +172,21 @@ struct SprintfParseResult {
     output_string: String,
 }
 
+// Parse a position (e.g. the "1$" in "%1$s" or "%*1$d") if there is one.
+fn parse_position(chars: &[char], i: &mut usize) -> Option<usize> {
+    let n_digits = chars[*i..]
+        .iter()
+        .take_while(|c| c.is_ascii_digit())
+        .count();
+    if chars.get(*i + n_digits) != Some(&'$') {
+        return None;
+    }
+    let pos = chars[*i..*i + n_digits].iter().collect::<String>().parse();
+    let pos = pos.ok().filter(|pos| *pos > 0)?;
+    *i += n_digits + 1;
+    Some(pos)
+}
+
 // Parse sprintf format string in one pass
 // Handles:
 // - %% (literal %)
@@ -177,9 +194,8 @@ struct SprintfParseResult {
 // - Invalid patterns
 fn parse_sprintf_format(s: &str) -> SprintfParseResult {
     let mut n_unique_special_chars = 0;
-    let mut all_args_consumed: Vec<usize> = vec![];
+    let mut n_consumed = 0;
     let mut invalid_positions = Vec::new();
-    let mut has_positional = false;
     let mut max_position = 0;
     let mut output_string = String::new();
 
@@ -209,23 +225,11 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
                 continue;
             }
 
-            let mut args_consumed = 1; // At least 1 for the value itself
-
             // Parse optional position (e.g., "1$" in "%1$s")
-            let start = i;
-            while i < chars.len() && chars[i].is_ascii_digit() {
-                i += 1;
-            }
-            if i < chars.len() && chars[i] == '$' {
-                if let Ok(pos) = chars[start..i].iter().collect::<String>().parse::<usize>() {
-                    has_positional = true;
-                    if pos > max_position {
-                        max_position = pos;
-                    }
-                    i += 1; // Skip the '$'
-                }
-            } else {
-                i = start; // Reset, wasn't a position specifier
+            let mut args_consumed = 0;
+            match parse_position(&chars, &mut i) {
+                Some(pos) => max_position = max_position.max(pos),
+                None => args_consumed += 1,
             }
 
             // Skip flags (-, +, space, 0, #)
@@ -241,8 +245,11 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
 
             // Parse width (can be * or digits)
             if i < chars.len() && chars[i] == '*' {
-                args_consumed += 1; // * consumes an argument
                 i += 1;
+                match parse_position(&chars, &mut i) {
+                    Some(pos) => max_position = max_position.max(pos),
+                    None => args_consumed += 1, // * consumes an argument
+                }
             } else {
                 while i < chars.len() && chars[i].is_ascii_digit() {
                     i += 1;
@@ -253,8 +260,11 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
             if i < chars.len() && chars[i] == '.' {
                 i += 1;
                 if i < chars.len() && chars[i] == '*' {
-                    args_consumed += 1; // .* consumes an argument
                     i += 1;
+                    match parse_position(&chars, &mut i) {
+                        Some(pos) => max_position = max_position.max(pos),
+                        None => args_consumed += 1, // .* consumes an argument
+                    }
                 } else {
                     while i < chars.len() && chars[i].is_ascii_digit() {
                         i += 1;
@@ -265,7 +275,7 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
             // Check if we have a valid type specifier
             if i < chars.len() && SPRINTF_TYPE_CHARS.contains(&chars[i]) {
                 n_unique_special_chars += 1;
-                all_args_consumed.push(args_consumed);
+                n_consumed += args_consumed;
                 i += 1;
             } else {
                 // Invalid format specifier
@@ -279,9 +289,8 @@ fn parse_sprintf_format(s: &str) -> SprintfParseResult {
 
     SprintfParseResult {
         n_unique_special_chars,
-        all_args_consumed,
+        n_consumed,
         invalid_positions,
-        has_positional,
         max_position,
         output_string,
     }
-- 
2.43.0


From f08dd7f8eeb3f9eb58ee8064c1436dc69d15d58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:10 +0000
Subject: [PATCH 65/66] fix: count the arguments of a piped download.file() as
 R does

---
 .../src/lints/base/download_file/download_file.rs          | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/download_file/download_file.rs b/crates/jarl-core/src/lints/base/download_file/download_file.rs
index 3b86731..ed4106f 100644
--- a/crates/jarl-core/src/lints/base/download_file/download_file.rs
+++ b/crates/jarl-core/src/lints/base/download_file/download_file.rs
@@ -1,5 +1,6 @@
 use crate::diagnostic::*;
 use crate::utils::{get_arg_by_name_then_position, get_function_name};
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::*;
 use biome_rowan::AstNode;
 
@@ -38,8 +39,10 @@ pub fn download_file(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
     }
 
     let args = ast.arguments()?.items();
-    let method = get_arg_by_name_then_position(&args, "method", 3);
-    let mode_arg = get_arg_by_name_then_position(&args, "mode", 5);
+    // With a pipe, the first argument stands before it.
+    let piped = usize::from(ast.has_previous_pipe());
+    let method = get_arg_by_name_then_position(&args, "method", 3 - piped);
+    let mode_arg = get_arg_by_name_then_position(&args, "mode", 5 - piped);
 
     // Check if method is wget or curl - if so, mode is ignored anyway
     if let Some(method) = method.and_then(|arg| arg.value())
-- 
2.43.0


From 87adf34f361588ce4127237d914ddd611b5651ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:32:29 +0000
Subject: [PATCH 66/66] fix: guard the check of length() where it is called

The guards move out of length_test.rs, which is taken for a test file.
---
 crates/jarl-core/src/analyze/call.rs          | 22 ++++++++++++++++++-
 .../src/lints/base/length_test/length_test.rs | 17 +++-----------
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/analyze/call.rs b/crates/jarl-core/src/analyze/call.rs
index e7c68f5..e38d784 100644
--- a/crates/jarl-core/src/analyze/call.rs
+++ b/crates/jarl-core/src/analyze/call.rs
@@ -1,6 +1,8 @@
 use crate::checker::Checker;
 use crate::rule_set::Rule;
+use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RCall;
+use biome_rowan::AstSeparatedList;
 
 use crate::lints::base::all_equal::all_equal::all_equal;
 use crate::lints::base::any_duplicated::any_duplicated::any_duplicated;
@@ -93,7 +95,12 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
     if checker.is_rule_enabled(Rule::LengthLevels) {
         checker.report_diagnostic(length_levels(r_expr)?);
     }
-    if checker.is_rule_enabled(Rule::LengthTest) {
+    // `length()` takes one argument: others, a value that is missing, or a value
+    // that comes from a pipe cannot be rewritten.
+    if checker.is_rule_enabled(Rule::LengthTest)
+        && !r_expr.has_previous_pipe()
+        && has_single_value(r_expr)
+    {
         checker.report_diagnostic(length_test(r_expr)?);
     }
     if checker.is_rule_enabled(Rule::Lengths) {
@@ -131,3 +138,16 @@ pub fn call(r_expr: &RCall, checker: &mut Checker) -> anyhow::Result<()> {
     }
     Ok(())
 }
+
+/// Whether the call has exactly one argument, and this argument has a value.
+fn has_single_value(ast: &RCall) -> bool {
+    let Ok(arguments) = ast.arguments() else {
+        return false;
+    };
+    let items = arguments.items();
+    let mut arguments = items.iter();
+    match (arguments.next(), arguments.next()) {
+        (Some(Ok(argument)), None) => argument.value().is_some(),
+        _ => false,
+    }
+}
diff --git a/crates/jarl-core/src/lints/base/length_test/length_test.rs b/crates/jarl-core/src/lints/base/length_test/length_test.rs
index 3d6b6ed..dbb34e6 100644
--- a/crates/jarl-core/src/lints/base/length_test/length_test.rs
+++ b/crates/jarl-core/src/lints/base/length_test/length_test.rs
@@ -1,9 +1,9 @@
 use crate::diagnostic::*;
 use crate::utils::{get_function_name, node_contains_comments};
-use crate::utils_ast::AstNodeExt;
 use air_r_syntax::RSyntaxKind::*;
 use air_r_syntax::*;
-use biome_rowan::{AstNode, AstSeparatedList};
+use anyhow::Context;
+use biome_rowan::AstNode;
 
 pub struct LengthTest;
 
@@ -48,18 +48,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         return Ok(None);
     }
 
-    // Don't know how to handle pipes for now.
-    if ast.has_previous_pipe() {
-        return Ok(None);
-    }
-
     let arguments = arguments?.items();
-
-    // Other arguments would be lost.
-    if arguments.len() > 1 {
-        return Ok(None);
-    }
-
     let mut arg_is_binary_expr = false;
     let mut operator_text: String = "".to_string();
     let mut lhs: String = "".to_string();
@@ -69,7 +58,7 @@ pub fn length_test(ast: &RCall) -> anyhow::Result<Option<Diagnostic>> {
         Some(first_arg) => {
             if let Ok(x) = first_arg {
                 let RArgumentFields { name_clause: _, value } = x.as_fields();
-                let value = unwrap_or_return_none!(value);
+                let value = value.context("Found named argument without any value")?;
                 if let AnyRExpression::RBinaryExpression(y) = value {
                     let RBinaryExpressionFields { left, operator, right } = y.as_fields();
 
-- 
2.43.0

