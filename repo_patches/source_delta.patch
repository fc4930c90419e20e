From a516bcc2d8a92f8d847e07ace386726a41f95a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 01/30] fix: reject LSP positions and offsets inside a
 character instead of panicking

---
 crates/jarl-lsp/src/document.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index ad39920..6fad3ef 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -218,6 +218,13 @@ impl TextDocument {
                         line
                     ));
                 }
+                if !line_content.is_char_boundary(character) {
+                    return Err(anyhow!(
+                        "Character {} is in the middle of a character on line {}",
+                        character,
+                        line
+                    ));
+                }
                 character
             }
             PositionEncoding::UTF16 => {
@@ -264,6 +271,9 @@ impl TextDocument {
         if offset > self.content.len() {
             return Err(anyhow!("Offset {} is out of bounds", offset));
         }
+        if !self.content.is_char_boundary(offset) {
+            return Err(anyhow!("Offset {} is not on a character boundary", offset));
+        }
 
         // Binary search to find the line
         let line = match self.line_starts.binary_search(&offset) {
-- 
2.43.0


From 8cfb44e90b99a1c9b67dd73012615f436c9db19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:20 +0000
Subject: [PATCH 02/30] fix: apply LSP changes in order, each against the text
 produced by the previous ones

---
 crates/jarl-lsp/src/document.rs | 42 ++++++++++++---------------------
 1 file changed, 15 insertions(+), 27 deletions(-)

diff --git a/crates/jarl-lsp/src/document.rs b/crates/jarl-lsp/src/document.rs
index 6fad3ef..671e9e5 100644
--- a/crates/jarl-lsp/src/document.rs
+++ b/crates/jarl-lsp/src/document.rs
@@ -133,8 +133,11 @@ impl TextDocument {
             new_version
         );
 
-        // Convert positions to offsets first, then sort by offset in reverse order
-        let mut changes_with_offsets = Vec::new();
+        // Work on a copy so that a rejected change leaves the document untouched.
+        let mut updated = Self::new(self.content.clone(), new_version);
+
+        // Changes are applied one after the other: the range of each one refers to
+        // the text produced by the previous ones.
         for change in changes {
             let range = change.range.ok_or_else(|| {
                 anyhow!(
@@ -142,33 +145,15 @@ impl TextDocument {
                 )
             })?;
 
-            let start_offset = self.position_to_offset(range.start, encoding)?;
-            let end_offset = self.position_to_offset(range.end, encoding)?;
-            changes_with_offsets.push((start_offset, end_offset, change));
-        }
-
-        // Sort by start offset in reverse order (end to beginning) to avoid offset invalidation
-        changes_with_offsets.sort_by(|a, b| b.0.cmp(&a.0));
-
-        // Apply incremental changes in reverse order
-        for (i, (start_offset, end_offset, change)) in changes_with_offsets.iter().enumerate() {
+            let start_offset = updated.position_to_offset(range.start, encoding)?;
+            let end_offset = updated.position_to_offset(range.end, encoding)?;
             tracing::trace!(
-                "Processing incremental change {}: {}..{} -> '{}'",
-                i,
+                "Processing incremental change: {}..{} -> '{}'",
                 start_offset,
                 end_offset,
                 change.text
             );
 
-            if *start_offset > self.content.len() || *end_offset > self.content.len() {
-                return Err(anyhow!(
-                    "Change range is out of bounds: {}..{} in document of length {}",
-                    start_offset,
-                    end_offset,
-                    self.content.len()
-                ));
-            }
-
             if start_offset > end_offset {
                 return Err(anyhow!(
                     "Invalid change range: start {} > end {}",
@@ -177,12 +162,15 @@ impl TextDocument {
                 ));
             }
 
-            self.content
-                .replace_range(*start_offset..*end_offset, &change.text);
+            updated
+                .content
+                .replace_range(start_offset..end_offset, &change.text);
+            updated.line_starts = Self::compute_line_starts(&updated.content);
         }
 
-        self.version = new_version;
-        self.line_starts = Self::compute_line_starts(&self.content);
+        self.content = updated.content;
+        self.version = updated.version;
+        self.line_starts = updated.line_starts;
         Ok(())
     }
 
-- 
2.43.0


From c7f6889ee290de1397157b4d269945092c3221b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 03/30] fix: do not panic on a DESCRIPTION whose R dependency
 has no parenthesised version

---
 crates/jarl-core/src/description.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/description.rs b/crates/jarl-core/src/description.rs
index 1ab9f3d..1283389 100644
--- a/crates/jarl-core/src/description.rs
+++ b/crates/jarl-core/src/description.rs
@@ -41,9 +41,9 @@ impl Description {
 fn extract_version_from_dependency(dep: &str) -> Option<String> {
     // Look for version requirement in parentheses
     if let Some(start) = dep.find('(')
-        && let Some(end) = dep.find(')')
+        && let Some(len) = dep[start + 1..].find(')')
     {
-        let version_part = &dep[start + 1..end];
+        let version_part = &dep[start + 1..start + 1 + len];
         // Remove >= operator and extract just the version number
         let version = version_part.replace(">=", "").trim().to_string();
 
@@ -53,7 +53,7 @@ fn extract_version_from_dependency(dep: &str) -> Option<String> {
     }
 
     // R dependency exists but no version specified
-    unreachable!("DESCRIPTION cannot have 'R' without version in Depends field.")
+    None
 }
 
 /// Parse a DCF (Debian Control File) format string into a key-value map
-- 
2.43.0


From 3d6014a4fe2f5061f4812c2c3b49dfa7c98b0906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 04/30] fix: report exit status 255 with --statistics when a
 file could not be checked

---
 crates/jarl/src/commands/check.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/jarl/src/commands/check.rs b/crates/jarl/src/commands/check.rs
index cfe120f..16858f4 100644
--- a/crates/jarl/src/commands/check.rs
+++ b/crates/jarl/src/commands/check.rs
@@ -146,7 +146,11 @@ pub fn check(args: CheckCommand) -> Result<ExitStatus> {
     all_diagnostics_flat.sort();
 
     if args.statistics {
-        return print_statistics(&all_diagnostics_flat, parent_config_path);
+        let status = print_statistics(&all_diagnostics_flat, parent_config_path)?;
+        if !all_errors.is_empty() {
+            return Ok(ExitStatus::Error);
+        }
+        return Ok(status);
     }
 
     let mut stdout = std::io::stdout();
-- 
2.43.0


From e3c25a0579cbe357b326b19cab5faf8ee2166954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:08 +0000
Subject: [PATCH 05/30] fix: count only the newlines before the start of a
 diagnostic

---
 crates/jarl-core/src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 9f074b3..7af3dbc 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -67,7 +67,7 @@ pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
 pub fn find_row_col(start: usize, loc_new_lines: &[usize]) -> (usize, usize) {
     let new_lines_before = loc_new_lines
         .iter()
-        .filter(|x| *x <= &start)
+        .filter(|x| *x < &start)
         .collect::<Vec<&usize>>();
     let n_new_lines = new_lines_before.len();
     let last_new_line = match new_lines_before.last() {
-- 
2.43.0


From 4bd01fd8fb8c35dc711d2e13288fd5a2468c9898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:32 +0000
Subject: [PATCH 06/30] fix: measure fixes in bytes and compare overlaps in the
 same coordinates

---
 crates/jarl-core/src/fix.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/fix.rs b/crates/jarl-core/src/fix.rs
index a2051bc..a0d9abe 100644
--- a/crates/jarl-core/src/fix.rs
+++ b/crates/jarl-core/src/fix.rs
@@ -32,7 +32,7 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
     let mut last_modified_pos = 0;
     let mut has_skipped_fixes = false;
 
-    let old_length = old_content.chars().count() as i32;
+    let old_length = old_content.len() as i32;
     let mut new_length = old_length;
 
     for fix in fixes {
@@ -57,8 +57,9 @@ pub fn apply_fixes(fixes: &[Diagnostic], contents: &str) -> (bool, String) {
         let end_usize = end as usize;
 
         new_content.replace_range(start_usize..end_usize, &fix.content);
-        new_length = new_content.chars().count() as i32;
-        last_modified_pos = end + diff_length;
+        new_length = new_content.len() as i32;
+        // End of the text just inserted (`start` already includes `diff_length`).
+        last_modified_pos = start + fix.content.len() as i32;
     }
 
     (has_skipped_fixes, new_content)
-- 
2.43.0


From 9d896d7af41cc52e2f3bbe920dc89538ccc62497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:32 +0000
Subject: [PATCH 07/30] fix: --fix-only must not bring back rules whose unsafe
 fixes are not allowed

---
 crates/jarl-core/src/config.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/config.rs b/crates/jarl-core/src/config.rs
index 7e691db..0fdc054 100644
--- a/crates/jarl-core/src/config.rs
+++ b/crates/jarl-core/src/config.rs
@@ -126,7 +126,7 @@ pub fn build_config(
     // --fix-only. This could maybe be done above but dealing with the three
     // args at the same time makes it much more complex.
     let rules_to_apply = if check_config.fix_only {
-        rules
+        rules_to_apply
             .iter()
             .filter(|r| !r.has_no_fix())
             .collect::<RuleSet>()
-- 
2.43.0


From a5c54f3a29629c2278352d83234a52816b70cc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:53 +0000
Subject: [PATCH 08/30] fix: refuse to fix when a dirty file has a name that is
 not UTF-8

---
 crates/jarl-core/src/vcs.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 58381b9..61b84a7 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -71,14 +71,14 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
         repo_opts.include_untracked(true);
 
         for status in repo.statuses(Some(&mut repo_opts))?.iter() {
-            if let Some(path) = status.path() {
-                match status.status() {
-                    git2::Status::CURRENT => (),
-                    _ => {
-                        all_dirty_files.push(path.to_string());
-                    }
-                };
-            }
+            // File names don't have to be valid UTF-8.
+            let path = String::from_utf8_lossy(status.path_bytes());
+            match status.status() {
+                git2::Status::CURRENT => (),
+                _ => {
+                    all_dirty_files.push(path.to_string());
+                }
+            };
         }
     }
 
-- 
2.43.0


From b608b1aa726f2e031d2b2e4187a3a10d572a4742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 09/30] fix: look for uncommitted changes in the working tree
 that holds the files

---
 crates/jarl-core/src/vcs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/vcs.rs b/crates/jarl-core/src/vcs.rs
index 61b84a7..2909c2b 100644
--- a/crates/jarl-core/src/vcs.rs
+++ b/crates/jarl-core/src/vcs.rs
@@ -28,10 +28,10 @@ pub fn check_version_control(paths: &[String], config: &Config) -> Result<()> {
     for path in paths {
         match git2::Repository::discover(Path::new(path)) {
             Ok(repo) => {
-                // Get the repository root path as a key
+                // Get the repository root path as a key. This is not always the
+                // parent of the `.git` directory, e.g. in linked worktrees.
                 let repo_path = repo
-                    .path()
-                    .parent()
+                    .workdir()
                     .and_then(|p| p.to_str())
                     .unwrap_or("")
                     .to_string();
-- 
2.43.0


From c70db8d061709e463c637796d89e006889365280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:56 +0000
Subject: [PATCH 10/30] fix: locate diagnostics by the newlines of the whole
 file

The newlines were searched in the text of the list of expressions, which ends
with the last expression: a diagnostic on a later comment (for example
blanket_suppression or outdated_suppression) was given the row of the last
expression.
---
 crates/jarl-core/src/check.rs |  2 +-
 crates/jarl-core/src/utils.rs | 20 +++-----------------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/crates/jarl-core/src/check.rs b/crates/jarl-core/src/check.rs
index 4f49344..6f29627 100644
--- a/crates/jarl-core/src/check.rs
+++ b/crates/jarl-core/src/check.rs
@@ -211,7 +211,7 @@ pub fn get_checks(
         })
         .collect();
 
-    let loc_new_lines = find_new_lines(syntax)?;
+    let loc_new_lines = find_new_lines_from_content(contents);
     let diagnostics = compute_lints_location(diagnostics, &loc_new_lines);
 
     Ok(diagnostics)
diff --git a/crates/jarl-core/src/utils.rs b/crates/jarl-core/src/utils.rs
index 7af3dbc..eba0c42 100644
--- a/crates/jarl-core/src/utils.rs
+++ b/crates/jarl-core/src/utils.rs
@@ -4,7 +4,7 @@ use air_r_syntax::{
     AnyRExpression, RArgument, RArgumentList, RBinaryExpression, RBinaryExpressionFields, RCall,
     RCallFields, RExtractExpressionFields, RSyntaxKind, RSyntaxNode,
 };
-use anyhow::{Result, anyhow};
+use anyhow::Result;
 use biome_rowan::AstNode;
 use biome_rowan::AstSeparatedList;
 
@@ -29,26 +29,12 @@ macro_rules! unwrap_or_return_none {
 
 /// Find byte positions of newline characters in a string.
 ///
-/// Used by Rmd/Qmd linting to compute line/column locations in the original
-/// file after position remapping from chunk space to file space.
+/// Used to compute line/column locations in the original file (for Rmd/Qmd
+/// files, after position remapping from chunk space to file space).
 pub fn find_new_lines_from_content(content: &str) -> Vec<usize> {
     content.match_indices('\n').map(|(i, _)| i).collect()
 }
 
-/// Find the positions of the new line characters in the given AST.
-pub fn find_new_lines(ast: &RSyntaxNode) -> Result<Vec<usize>> {
-    match ast.first_child() {
-        Some(rootnode) => Ok(rootnode
-            .to_string()
-            .match_indices("\n")
-            .map(|x| x.0)
-            .collect::<Vec<usize>>()),
-        None => Err(anyhow!(
-            "Couldn't find root node. Maybe the document contains a parsing error?"
-        )),
-    }
-}
-
 /// Takes the start of the range of a Diagnostic and the indices for the new
 /// lines. Returns the (row, col) position of the Diagnostic in the file.
 ///
-- 
2.43.0


From cf7a95ba60a5e3ffd8f0ae796ed7bee9028082f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 11/30] fix: read comments after a node after those inside it

A start comment after the last expression of a file and an end comment
inside it were matched the wrong way round, and building the region
panicked.
---
 crates/jarl-core/src/suppression.rs | 35 +++++++++++++++--------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 3dcf92c..560d476 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -347,23 +347,6 @@ impl SuppressionManager {
             }
         }
 
-        // Process trailing comments (end-of-line comments)
-        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
-        // We need to check if the comment is actually on the same line as code (true end-of-line).
-        for comment in comments.trailing_comments(node) {
-            let range = comment.piece().text_range();
-            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
-            Self::process_comment(
-                comment.piece().text(),
-                range,
-                node_range,
-                collector,
-                false,
-                is_true_end_of_line,
-                nesting_level,
-            );
-        }
-
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -396,6 +379,24 @@ impl SuppressionManager {
             );
             is_first = false; // Only the first child can have file-level suppressions
         }
+
+        // Process trailing comments (end-of-line comments). They come after the
+        // comments inside the node, which matters for start/end comments.
+        // Note: biome classifies comments at EOF as "trailing" even if they're on their own line.
+        // We need to check if the comment is actually on the same line as code (true end-of-line).
+        for comment in comments.trailing_comments(node) {
+            let range = comment.piece().text_range();
+            let is_true_end_of_line = Self::is_same_line_as_code(range, source);
+            Self::process_comment(
+                comment.piece().text(),
+                range,
+                node_range,
+                collector,
+                false,
+                is_true_end_of_line,
+                nesting_level,
+            );
+        }
     }
 
     /// Check if a comment is on the same line as code (true end-of-line comment)
-- 
2.43.0


From 540f7d48c4345a776f5a54fd620f9cf20d05159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:29 +0000
Subject: [PATCH 12/30] fix: an ignore comment that nothing follows covers
 nothing

A '# jarl-ignore' comment on its own line after the last expression of
a file, block or argument list hid the diagnostics of the expression
before it.
---
 crates/jarl-core/src/suppression.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 560d476..5d2942e 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -390,7 +390,8 @@ impl SuppressionManager {
             Self::process_comment(
                 comment.piece().text(),
                 range,
-                node_range,
+                // No node follows this comment, so it covers nothing but itself.
+                range,
                 collector,
                 false,
                 is_true_end_of_line,
-- 
2.43.0


From fdc406d95eca3a07b1696bee7a1cc81a369eb2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:49 +0000
Subject: [PATCH 13/30] fix: comments before and after a block are outside of
 it

The comments attached to a bare '{' block counted as one nesting level
deeper, so a start comment before the block matched an end comment
inside it and not one after it.
---
 crates/jarl-core/src/suppression.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 5d2942e..539568d 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -347,6 +347,14 @@ impl SuppressionManager {
             }
         }
 
+        // Entering braces (function bodies, etc.) increases the nesting level for the
+        // comments inside them, not for those before or after the braces.
+        let child_nesting = if node.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
+            nesting_level + 1
+        } else {
+            nesting_level
+        };
+
         // Process dangling comments
         for comment in comments.dangling_comments(node) {
             Self::process_comment(
@@ -356,19 +364,13 @@ impl SuppressionManager {
                 collector,
                 false,
                 false, // not trailing
-                nesting_level,
+                child_nesting,
             );
         }
 
         // Recursively process children
-        // Increment nesting level when entering braced expressions (function bodies, etc.)
         let mut is_first = is_first_expression;
         for child in node.children() {
-            let child_nesting = if child.kind() == RSyntaxKind::R_BRACED_EXPRESSIONS {
-                nesting_level + 1
-            } else {
-                nesting_level
-            };
             Self::collect_all_directives(
                 &child,
                 comments,
-- 
2.43.0


From 2da07dd578a072910746b6429221cd78f6f2fe93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 14/30] fix: a file comment inside the first expression is
 misplaced

'# jarl-ignore-file' after an opening '{' or '(' at the start of the
file was accepted although it comes after code.
---
 crates/jarl-core/src/suppression.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 539568d..299373c 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -371,6 +371,8 @@ impl SuppressionManager {
         // Recursively process children
         let mut is_first = is_first_expression;
         for child in node.children() {
+            // Any token before the first child (e.g. `{`) is code too.
+            is_first = is_first && child.text_trimmed_range().start() == node_range.start();
             Self::collect_all_directives(
                 &child,
                 comments,
-- 
2.43.0


From 6d7077dbbdaf866042957d719286d6f05140179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 15/30] fix: report a start comment that another one replaces

Of two start comments for one rule before an end comment, the first had
no effect and was not reported as unmatched.
---
 crates/jarl-core/src/suppression.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index 299373c..e49da4b 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -447,10 +447,14 @@ impl SuppressionManager {
                 collector.has_any_valid_directive = true;
                 match directive {
                     LintDirective::IgnoreStart(rule) => {
-                        // Store with nesting level for proper matching
-                        collector
+                        // Store with nesting level for proper matching. A start that is
+                        // still open can no longer be matched.
+                        if let Some((open_range, _)) = collector
                             .starts
-                            .insert((rule, nesting_level), (comment_range, comment_range));
+                            .insert((rule, nesting_level), (comment_range, comment_range))
+                        {
+                            collector.unmatched_start_suppressions.push(open_range);
+                        }
                     }
                     LintDirective::IgnoreEnd(rule) => {
                         // Only match with start at the same nesting level
-- 
2.43.0


From 093e418bed512ef46652ec68da634cb02e204e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:11 +0000
Subject: [PATCH 16/30] fix: a comment before a named argument covers its value

The comment was attached to the name only, so '# jarl-ignore' before
'arg = value' had no effect.
---
 crates/jarl-core/src/suppression.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/jarl-core/src/suppression.rs b/crates/jarl-core/src/suppression.rs
index e49da4b..88c7e97 100644
--- a/crates/jarl-core/src/suppression.rs
+++ b/crates/jarl-core/src/suppression.rs
@@ -55,7 +55,7 @@ impl CommentStyle for RCommentStyle {
             || enclosing.kind() == RSyntaxKind::R_ARGUMENT_LIST
         {
             // Comment is inside function call arguments. Attach to the following
-            // argument's first child (the actual expression).
+            // argument as a whole, whether it is named or not.
             //
             // Example:
             // ```
@@ -67,9 +67,9 @@ impl CommentStyle for RCommentStyle {
             // ```
             if let Some(following) = comment.following_node()
                 && following.kind() == RSyntaxKind::R_ARGUMENT
-                && let Some(first_child) = following.first_child()
+                && following.first_child().is_some()
             {
-                return CommentPlacement::leading(first_child, comment);
+                return CommentPlacement::leading(following.clone(), comment);
             }
         }
 
-- 
2.43.0


From 0c97171a89c4d013f93150b415b3499ac8e65307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:54 +0000
Subject: [PATCH 17/30] fix: never insert an ignore comment inside a string

For a diagnostic after a string that ends on the same line but starts on
an earlier one, --add-jarl-ignore put the comment into the string.
---
 crates/jarl-core/src/suppression_edit.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index be2d974..3ceaafe 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -275,7 +275,25 @@ pub fn compute_suppression_insert_point(
         });
     }
 
-    // Fallback to simple insertion
+    // Fallback to simple insertion, unless the line starts inside a token (a string
+    // over several lines): a comment there would become part of the string.
+    let (line_start, _) = find_line_start_and_indent(source, diagnostic_start);
+    let line_start = TextSize::from(line_start as u32);
+    let at_line_start = root
+        .syntax()
+        .covering_element(TextRange::new(line_start, line_start));
+    if let biome_rowan::NodeOrToken::Token(token) = at_line_start
+        && token.text_trimmed_range().start() < line_start
+        && token.text_trimmed_range().end() > line_start
+    {
+        return Some(SuppressionInsertPoint {
+            offset: diagnostic_start,
+            indent: compute_inline_indent(source, diagnostic_start),
+            line: count_lines_to(source, diagnostic_start),
+            needs_leading_newline: true,
+        });
+    }
+
     compute_simple_insert_point(source, diagnostic_start)
 }
 
-- 
2.43.0


From e8cfd2df80c95a8eb6d7f2196941aa6dc15a2557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 18/30] fix: count the line of an ignore comment in the whole
 Rmd file

---
 crates/jarl-core/src/suppression_edit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/suppression_edit.rs b/crates/jarl-core/src/suppression_edit.rs
index 3ceaafe..da4c8b6 100644
--- a/crates/jarl-core/src/suppression_edit.rs
+++ b/crates/jarl-core/src/suppression_edit.rs
@@ -454,8 +454,9 @@ pub fn create_suppression_edit_in_rmd(
             let local_end = diagnostic_end.saturating_sub(chunk.start_byte);
             let mut insert_point =
                 compute_suppression_insert_point(&chunk.code, local_start, local_end)?;
-            // Remap chunk-local offset to file-level offset.
+            // Remap chunk-local offset and line to the file level.
             insert_point.offset += chunk.start_byte;
+            insert_point.line += file_content[..chunk.start_byte].matches('\n').count();
             let comment_text = format_suppression_comments(
                 &[rule_name],
                 explanation,
-- 
2.43.0


From 9dfc2549c6e21daa1bb12666988fbd378ac39078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:39 +0000
Subject: [PATCH 19/30] fix: place ignore comments by the negotiated position
 encoding

---
 crates/jarl-lsp/src/server.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/crates/jarl-lsp/src/server.rs b/crates/jarl-lsp/src/server.rs
index fea1aa8..4ef4e88 100644
--- a/crates/jarl-lsp/src/server.rs
+++ b/crates/jarl-lsp/src/server.rs
@@ -560,7 +560,12 @@ impl Server {
         // Always insert a new comment line (each rule gets its own comment with its own explanation)
         let (insert_range, new_comment) = if insert_point.needs_leading_newline {
             // Inline insertion: insert right at the expression with a leading newline
-            let insert_pos = Self::offset_to_position(content, insert_point.offset);
+            let insert_pos = crate::lint::byte_offset_to_lsp_position(
+                insert_point.offset,
+                content,
+                snapshot.position_encoding(),
+            )
+            .ok()?;
             let comment = suppression_edit::format_suppression_comments(
                 &[rule_name],
                 "<reason>",
@@ -645,7 +650,12 @@ impl Server {
 
         // Insert at the very first byte of the chunk code (top of the chunk).
         // Use the Quarto-idiomatic YAML array form so the comment is valid YAML.
-        let insert_pos = Self::offset_to_position(content, chunk.start_byte);
+        let insert_pos = crate::lint::byte_offset_to_lsp_position(
+            chunk.start_byte,
+            content,
+            snapshot.position_encoding(),
+        )
+        .ok()?;
         let new_comment = format!("#| jarl-ignore-chunk:\n#|   - {rule_name}: <reason>\n");
         let insert_range = types::Range::new(insert_pos, insert_pos);
 
@@ -668,15 +678,6 @@ impl Server {
         })
     }
 
-    /// Convert a byte offset to an LSP Position
-    fn offset_to_position(content: &str, offset: usize) -> types::Position {
-        let before = &content[..offset.min(content.len())];
-        let line = before.matches('\n').count() as u32;
-        let line_start = before.rfind('\n').map(|p| p + 1).unwrap_or(0);
-        let character = (offset - line_start) as u32;
-        types::Position::new(line, character)
-    }
-
     /// Get the text of a specific line
     fn get_line_text(content: &str, line_number: usize) -> Option<String> {
         content.lines().nth(line_number).map(|s| s.to_string())
-- 
2.43.0


From cad6fe4e54fde4d92b99b8fdb55e95fad00be160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:56 +0000
Subject: [PATCH 20/30] fix: code after a bare `return` is reachable

---
 .../jarl-core/src/lints/base/unreachable_code/cfg/builder.rs  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
index d5cc506..b7a000d 100644
--- a/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
+++ b/crates/jarl-core/src/lints/base/unreachable_code/cfg/builder.rs
@@ -240,7 +240,9 @@ impl<'a> CfgBuilder<'a> {
                 current
             }
             RSyntaxKind::R_RETURN_EXPRESSION => {
-                self.build_return(current, stmt.clone());
+                // `return` without parentheses only names the function, it doesn't
+                // leave the enclosing one.
+                self.add_statement(current, stmt.clone());
                 current
             }
             RSyntaxKind::R_IF_STATEMENT => {
-- 
2.43.0


From 3002402b2c92d0c21184df410a15b8cb6682981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:31 +0000
Subject: [PATCH 21/30] fix: read NAMESPACE directives that span lines, share a
 line or precede a comment

---
 .../base/unused_function/unused_function.rs   | 63 +++++++++++++++++--
 1 file changed, 58 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 8408ba9..7e0e811 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -81,6 +81,60 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
     Some(&rest[..end])
 }
 
+/// Split a NAMESPACE file into pieces that each hold at most one directive.
+///
+/// NAMESPACE files use R syntax: a directive may span several lines, several of
+/// them may share a line, and comments may follow or interrupt them. A piece ends
+/// where the outermost parentheses close, and at a newline or `;` outside of
+/// parentheses. Comments are dropped.
+fn namespace_directives(content: &str) -> Vec<String> {
+    let mut pieces = Vec::new();
+    let mut piece = String::new();
+    let mut depth: usize = 0;
+    let mut quote: Option<char> = None;
+    let mut chars = content.chars();
+
+    while let Some(c) = chars.next() {
+        if let Some(q) = quote {
+            piece.push(c);
+            if c == '\\' && q != '`' {
+                piece.extend(chars.next());
+            } else if c == q {
+                quote = None;
+            }
+            continue;
+        }
+        match c {
+            '#' => {
+                // Skip the rest of the line, which ends the piece if it can end here.
+                let _ = chars.by_ref().find(|c| *c == '\n');
+                if depth == 0 {
+                    pieces.push(std::mem::take(&mut piece));
+                }
+            }
+            '\n' | ';' if depth == 0 => pieces.push(std::mem::take(&mut piece)),
+            '\n' => piece.push(' '),
+            ')' => {
+                piece.push(c);
+                depth = depth.saturating_sub(1);
+                if depth == 0 {
+                    pieces.push(std::mem::take(&mut piece));
+                }
+            }
+            _ => {
+                if c == '(' {
+                    depth += 1;
+                } else if c == '"' || c == '\'' || c == '`' {
+                    quote = Some(c);
+                }
+                piece.push(c);
+            }
+        }
+    }
+    pieces.push(piece);
+    pieces
+}
+
 /// Parse a NAMESPACE file and return the set of exported function names.
 ///
 /// Handles both `export(name)` directives and `exportPattern(regex)` directives.
@@ -89,18 +143,17 @@ fn extract_directive<'a>(line: &'a str, directive: &str) -> Option<&'a str> {
 pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<String> {
     let mut exports = HashSet::new();
 
-    for line in content.lines() {
-        let trimmed = line.trim();
+    for piece in namespace_directives(content) {
+        let trimmed = piece.trim();
 
-        // Skip comments and empty lines
-        if trimmed.is_empty() || trimmed.starts_with('#') {
+        if trimmed.is_empty() {
             continue;
         }
 
         // NAMESPACE directives may be wrapped in `if (...)` guards, e.g.
         //   if (getRversion() >= "4.4.0") S3method(sort_by, data.table)
         // We extract the inner `directive(...)` by finding the directive
-        // keyword anywhere in the line.
+        // keyword anywhere in the piece.
         for directive in [
             "export",
             "exportPattern",
-- 
2.43.0


From 2a21acb14a67147221986af1153b608e6611f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:41 +0000
Subject: [PATCH 22/30] fix: accept names in backticks in NAMESPACE

---
 .../base/unused_function/unused_function.rs   | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 7e0e811..608c950 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -135,6 +135,14 @@ fn namespace_directives(content: &str) -> Vec<String> {
     pieces
 }
 
+/// Strip the quotes or backticks around a name.
+fn unquote(name: &str) -> &str {
+    name.trim()
+        .trim_matches('"')
+        .trim_matches('\'')
+        .trim_matches('`')
+}
+
 /// Parse a NAMESPACE file and return the set of exported function names.
 ///
 /// Handles both `export(name)` directives and `exportPattern(regex)` directives.
@@ -165,7 +173,7 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                 match directive {
                     "export" => {
                         for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
+                            let name = unquote(name);
                             if !name.is_empty() {
                                 exports.insert(name.to_string());
                             }
@@ -187,8 +195,8 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                         // S3method(generic, class, method_fn)
                         let parts: Vec<&str> = inner.splitn(4, ',').collect();
                         if parts.len() >= 2 {
-                            let raw_generic = parts[0].trim().trim_matches('"').trim_matches('\'');
-                            let class = parts[1].trim().trim_matches('"').trim_matches('\'');
+                            let raw_generic = unquote(parts[0]);
+                            let class = unquote(parts[1]);
 
                             // Strip optional pkg:: or pkg::: prefix
                             let generic = raw_generic
@@ -197,8 +205,7 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                                 .unwrap_or(raw_generic);
 
                             if parts.len() >= 3 {
-                                let method_fn =
-                                    parts[2].trim().trim_matches('"').trim_matches('\'');
+                                let method_fn = unquote(parts[2]);
                                 if !method_fn.is_empty() {
                                     exports.insert(method_fn.to_string());
                                 }
@@ -209,7 +216,7 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                     }
                     "exportMethods" | "exportClasses" => {
                         for name in inner.split(',') {
-                            let name = name.trim().trim_matches('"').trim_matches('\'');
+                            let name = unquote(name);
                             if !name.is_empty() {
                                 exports.insert(name.to_string());
                             }
-- 
2.43.0


From d010a0af6a0fa75f3d1288e5998d86986b51483d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:50 +0000
Subject: [PATCH 23/30] fix: read all patterns of exportPattern() as R strings

---
 .../base/unused_function/unused_function.rs   | 34 ++++++++++++++++---
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 608c950..91196aa 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -143,6 +143,29 @@ fn unquote(name: &str) -> &str {
         .trim_matches('`')
 }
 
+/// The regular expressions given to `exportPattern()`: string literals, in which a
+/// backslash is written twice, separated by commas.
+fn export_patterns(args: &str) -> Vec<String> {
+    let mut patterns = Vec::new();
+    let mut pattern = String::new();
+    let mut quote: Option<char> = None;
+    let mut chars = args.chars();
+
+    while let Some(c) = chars.next() {
+        match quote {
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None => {}
+            Some(_) if c == '\\' => pattern.extend(chars.next()),
+            Some(q) if c == q => {
+                patterns.push(std::mem::take(&mut pattern));
+                quote = None;
+            }
+            Some(_) => pattern.push(c),
+        }
+    }
+    patterns
+}
+
 /// Parse a NAMESPACE file and return the set of exported function names.
 ///
 /// Handles both `export(name)` directives and `exportPattern(regex)` directives.
@@ -180,11 +203,12 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
                         }
                     }
                     "exportPattern" => {
-                        let pattern = inner.trim().trim_matches('"').trim_matches('\'');
-                        if let Ok(re) = Regex::new(pattern) {
-                            for &name in all_names {
-                                if re.is_match(name) {
-                                    exports.insert(name.to_string());
+                        for pattern in export_patterns(inner) {
+                            if let Ok(re) = Regex::new(&pattern) {
+                                for &name in all_names {
+                                    if re.is_match(name) {
+                                        exports.insert(name.to_string());
+                                    }
                                 }
                             }
                         }
-- 
2.43.0


From 122a7f288e2420824f847437c1293ae106407e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 24/30] fix: count uses of functions with non-ASCII names

---
 .../base/unused_function/unused_function.rs   | 23 +++++++------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 91196aa..6afab90 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -275,26 +275,19 @@ pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
             continue;
         }
 
-        let bytes = line.as_bytes();
-        let len = bytes.len();
-        let mut i = 0;
-
-        while i < len {
-            let b = bytes[i];
+        let mut chars = line.char_indices().peekable();
 
+        while let Some((start, c)) = chars.next() {
             // R identifiers start with a letter, `.`, or `_`
-            if b.is_ascii_alphabetic() || b == b'.' || b == b'_' {
-                let start = i;
-                i += 1;
-                while i < len
-                    && (bytes[i].is_ascii_alphanumeric() || bytes[i] == b'.' || bytes[i] == b'_')
+            if c.is_alphabetic() || c == '.' || c == '_' {
+                let mut end = start + c.len_utf8();
+                while let Some((pos, c)) =
+                    chars.next_if(|(_, c)| c.is_alphanumeric() || *c == '.' || *c == '_')
                 {
-                    i += 1;
+                    end = pos + c.len_utf8();
                 }
-                let name = &line[start..i];
+                let name = &line[start..end];
                 *symbols.entry(name).or_insert(0) += 1;
-            } else {
-                i += 1;
             }
         }
     }
-- 
2.43.0


From fbfa9c3829cf969ad55bdf389945e8bdd0cc189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:07 +0000
Subject: [PATCH 25/30] fix: count uses of functions in subdirectories of R/

---
 crates/jarl-core/src/package.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 1be2409..ebd55a9 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -24,7 +24,7 @@ pub(crate) enum FileScope {
     Tests,
     /// inst/tinytest/ or inst/tests/ — definitions checked only within this scope.
     Inst,
-    /// src/ — C/C++ files; no definition checking.
+    /// src/ (C/C++ files) and subdirectories of R/ — no definition checking.
     Src,
 }
 
@@ -161,7 +161,15 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let all_files: Vec<(&Path, FileScope)> = r_dir_files
         .iter()
         .map(|p| (p.as_path(), FileScope::R))
-        .chain(excluded_r_files.iter().map(|p| (p.as_path(), FileScope::R)))
+        .chain(excluded_r_files.iter().map(|p| {
+            // Files in subdirectories of R/ (e.g. R/unix/) may use the functions
+            // defined in R/, but their definitions depend on the platform.
+            let scope = match is_in_r_package(p) {
+                Some(true) => FileScope::R,
+                _ => FileScope::Src,
+            };
+            (p.as_path(), scope)
+        }))
         .chain(extra_files.iter().map(|p| {
             let scope = file_scope_from_path(p);
             (p.as_path(), scope)
-- 
2.43.0


From 7ac8f92efe2a1d8a9e873656d5bed21219d44177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:34 +0000
Subject: [PATCH 26/30] fix: check a file that several given paths lead to only
 once

---
 crates/jarl-core/src/discovery.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/jarl-core/src/discovery.rs b/crates/jarl-core/src/discovery.rs
index 2e36a02..9243bd2 100644
--- a/crates/jarl-core/src/discovery.rs
+++ b/crates/jarl-core/src/discovery.rs
@@ -351,6 +351,13 @@ pub fn discover_r_file_paths<P: AsRef<Path>>(
         });
     }
 
+    // A file that several of the given paths lead to is checked only once.
+    let mut seen = FxHashSet::default();
+    files.retain(|result| match result {
+        Ok(path) => seen.insert(path.clone()),
+        Err(_) => true,
+    });
+
     files
 }
 
-- 
2.43.0


From 12be2ebf5d378577537e19a4e7340c8643027af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:52 +0000
Subject: [PATCH 27/30] fix: report a jarl.toml that cannot be read instead of
 panicking

---
 crates/jarl-core/src/toml.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/toml.rs b/crates/jarl-core/src/toml.rs
index 59e9bb4..038e95d 100644
--- a/crates/jarl-core/src/toml.rs
+++ b/crates/jarl-core/src/toml.rs
@@ -49,7 +49,8 @@ impl Display for ParseTomlError {
 }
 
 pub fn parse_jarl_toml(path: &Path) -> Result<TomlOptions, ParseTomlError> {
-    let toml = fs::read_to_string(path).unwrap();
+    let toml =
+        fs::read_to_string(path).map_err(|err| ParseTomlError::Read(path.to_path_buf(), err))?;
     toml::from_str(&toml).map_err(|err| ParseTomlError::Deserialize(path.to_path_buf(), err))
 }
 
-- 
2.43.0


From 012072aac7ab8d980b91e098d63045eace67a13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 28/30] fix: count uses of functions in preprocessor directives
 of src/

---
 .../base/unused_function/unused_function.rs   | 20 +++++++++++++------
 crates/jarl-core/src/package.rs               | 10 ++++++----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 6afab90..11ba74f 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -265,16 +265,24 @@ pub fn parse_namespace_exports(content: &str, all_names: &[&str]) -> HashSet<Str
 /// `name(` call patterns, we also cover indirect references like
 /// `do.call("name", ...)`, `lapply(xs, name)`, `match.fun(name)`, etc.
 pub fn scan_symbols(content: &str) -> HashMap<String, usize> {
-    let mut symbols: HashMap<&str, usize> = HashMap::new();
-
-    for line in content.lines() {
+    count_symbols(content.lines().filter(|line| {
         let trimmed = line.trim_start();
         // Skip regular comments but keep roxygen comments (#') since they
         // may reference internal functions (e.g. via \Sexpr).
-        if trimmed.starts_with('#') && !trimmed.starts_with("#'") {
-            continue;
-        }
+        !trimmed.starts_with('#') || trimmed.starts_with("#'")
+    }))
+}
+
+/// Same as `scan_symbols()` for C/C++ files, where a line that starts with `#`
+/// is a preprocessor directive and not a comment.
+pub(crate) fn scan_cpp_symbols(content: &str) -> HashMap<String, usize> {
+    count_symbols(content.lines())
+}
+
+fn count_symbols<'a>(lines: impl Iterator<Item = &'a str>) -> HashMap<String, usize> {
+    let mut symbols: HashMap<&str, usize> = HashMap::new();
 
+    for line in lines {
         let mut chars = line.char_indices().peekable();
 
         while let Some((start, c)) = chars.next() {
diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index ebd55a9..5e3f704 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -10,7 +10,7 @@ use crate::lints::base::duplicated_function_definition::duplicated_function_defi
     compute_duplicates_from_shared, scan_top_level_assignments,
 };
 use crate::lints::base::unused_function::unused_function::{
-    collect_files, compute_unused_from_shared, has_cpp_extension, scan_symbols,
+    collect_files, compute_unused_from_shared, has_cpp_extension, scan_cpp_symbols, scan_symbols,
 };
 use crate::rule_set::Rule;
 
@@ -182,10 +182,12 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
         .par_iter()
         .filter_map(|(path, scope)| {
             let content = std::fs::read_to_string(path).ok()?;
-            let symbol_counts = if check_unused {
-                scan_symbols(&content)
-            } else {
+            let symbol_counts = if !check_unused {
                 HashMap::new()
+            } else if has_cpp_extension(path) {
+                scan_cpp_symbols(&content)
+            } else {
+                scan_symbols(&content)
             };
 
             let assignments = match scope {
-- 
2.43.0


From 27a0ffabbf82ee56e6facfe92d67c157d9733bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 29/30] fix: count uses of functions in all C and C++ files of
 src/

---
 .../jarl-core/src/lints/base/unused_function/unused_function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
index 11ba74f..10faa70 100644
--- a/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
+++ b/crates/jarl-core/src/lints/base/unused_function/unused_function.rs
@@ -330,7 +330,7 @@ pub(crate) fn collect_files(dir: &Path, predicate: fn(&Path) -> bool) -> Vec<Pat
 pub(crate) fn has_cpp_extension(path: &Path) -> bool {
     matches!(
         path.extension().and_then(|e| e.to_str()),
-        Some("c" | "cpp" | "h" | "hpp")
+        Some("c" | "cc" | "cpp" | "cxx" | "h" | "hh" | "hpp" | "hxx")
     )
 }
 
-- 
2.43.0


From f2dd6718ead5d2f3846d332f364ad10a174d5d83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:13 +0000
Subject: [PATCH 30/30] fix: count uses of functions in files that are not
 encoded as UTF-8

---
 crates/jarl-core/src/package.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/crates/jarl-core/src/package.rs b/crates/jarl-core/src/package.rs
index 5e3f704..9079ad7 100644
--- a/crates/jarl-core/src/package.rs
+++ b/crates/jarl-core/src/package.rs
@@ -151,7 +151,8 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
                 extra_files.extend(collect_files(&src_dir, has_cpp_extension));
             }
             // Read NAMESPACE content (cheap, one per package)
-            if let Ok(ns_content) = std::fs::read_to_string(root.join("NAMESPACE")) {
+            if let Ok(ns_bytes) = std::fs::read(root.join("NAMESPACE")) {
+                let ns_content = String::from_utf8_lossy(&ns_bytes).into_owned();
                 namespace_contents.insert(root.clone(), ns_content);
             }
         }
@@ -181,7 +182,10 @@ pub fn compute_package_analysis(paths: &[PathBuf], config: &Config) -> PackageAn
     let shared_data: Vec<SharedFileData> = all_files
         .par_iter()
         .filter_map(|(path, scope)| {
-            let content = std::fs::read_to_string(path).ok()?;
+            // Names used in a file count even if it isn't encoded as UTF-8
+            // (e.g. because of an accent in a comment).
+            let bytes = std::fs::read(path).ok()?;
+            let content = String::from_utf8_lossy(&bytes);
             let symbol_counts = if !check_unused {
                 HashMap::new()
             } else if has_cpp_extension(path) {
-- 
2.43.0

