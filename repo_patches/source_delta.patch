From 86d190629912adaecb5ab3ce2e98cf818a2b11e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:24 +0000
Subject: [PATCH 01/17] fix: extend a longest common run from its own end, not
 one past it

The tail extension compared the items after the one following the run, so the
unequal item in between was claimed as common and changes were lost.
---
 pw_diff_lib/src/changes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 0111e4a..3d83fa0 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -190,15 +190,15 @@ impl<'a, T: PartialEq + Clone, I: ContentItemIndices<T>> ChangesGenerator<'a, T,
                     .min(best_lcs.after_start()),
             );
 
-            if best_lcs.before_end() + 1 < before_range.end()
-                && best_lcs.after_end() + 1 < after_range.end()
+            if best_lcs.before_end() < before_range.end()
+                && best_lcs.after_end() < after_range.end()
             {
                 let count = self
                     .before
-                    .subsequence(Range(best_lcs.before_end() + 1, before_range.end()))
+                    .subsequence(Range(best_lcs.before_end(), before_range.end()))
                     .zip(
                         self.after
-                            .subsequence(Range(best_lcs.after_end() + 1, after_range.end())),
+                            .subsequence(Range(best_lcs.after_end(), after_range.end())),
                     )
                     .take_while(|(a, b)| a == b)
                     .count();
-- 
2.43.0


From 6850f9af09cf148443e27f5e461a675a78917e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 02/17] fix: an empty run of items does occur at the very end
 of a sequence

---
 pw_diff_lib/src/sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/sequence.rs b/pw_diff_lib/src/sequence.rs
index ce05040..00ea809 100644
--- a/pw_diff_lib/src/sequence.rs
+++ b/pw_diff_lib/src/sequence.rs
@@ -29,7 +29,7 @@ impl<T: PartialEq + Clone> Seq<T> {
     }
 
     pub fn has_subsequence_at(&self, subsequence: &[T], at: usize) -> bool {
-        if at < self.len() && self.len() - at >= subsequence.len() {
+        if at <= self.len() && self.len() - at >= subsequence.len() {
             subsequence
                 .iter()
                 .zip(self.0[at..].iter())
-- 
2.43.0


From 637925d54573480bbf2ff358b742abc548ac3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:57 +0000
Subject: [PATCH 03/17] fix: the end of a clump is the end of its last change

---
 pw_diff_lib/src/changes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pw_diff_lib/src/changes.rs b/pw_diff_lib/src/changes.rs
index 3d83fa0..2e0e0f7 100644
--- a/pw_diff_lib/src/changes.rs
+++ b/pw_diff_lib/src/changes.rs
@@ -385,7 +385,7 @@ impl<'a, T: PartialEq + Clone> ChangeBasics for ChangeClump<'a, T> {
     }
 
     fn before_end(&self, reverse: bool) -> usize {
-        if let Some(change) = self.changes.first() {
+        if let Some(change) = self.changes.last() {
             change.before_end(reverse)
         } else {
             0
-- 
2.43.0


From 6dad766d8818c9a1bc1446250f8a3c9e40740fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:59 +0000
Subject: [PATCH 04/17] fix: a hunk longer than the remaining target no longer
 makes the search window underflow

---
 pw_diff_lib/src/apply_text.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index 8da951c..b071547 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -153,11 +153,12 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         offset: isize,
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
+        let length =
+            self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize;
         let not_after = if let Some(next_clump) = next_clump {
-            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) as usize
-                - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) - length
         } else {
-            pd.data().len() - self.before_adjusted_length(Some(self.context_lengths()), reverse)
+            pd.data().len() as isize - length
         };
         let mut backward_done = false;
         let mut forward_done = false;
@@ -176,7 +177,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             }
             if !forward_done {
                 let adjusted_offset = offset + i;
-                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after as isize {
+                if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
                     if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
                         return Some((i, will_apply));
                     }
-- 
2.43.0


From aa7630321404ecec6fea421400cfca294b0b3e62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 05/17] fix: write a hunk with reduced context from the hunk's
 own lines

---
 pw_diff_lib/src/apply_text.rs | 2 +-
 pw_diff_lib/src/snippet.rs    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index b071547..e463b96 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -77,7 +77,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         reverse: bool,
     ) -> io::Result<()> {
         if reductions.is_some() {
-            let range = self.before_range(reductions, reverse);
+            let range = self.my_before_range(reductions, reverse);
             for line in self.before_lines(Some(range), reverse) {
                 into.write_all(line.as_bytes())?;
             }
diff --git a/pw_diff_lib/src/snippet.rs b/pw_diff_lib/src/snippet.rs
index d925935..ca2ef1d 100644
--- a/pw_diff_lib/src/snippet.rs
+++ b/pw_diff_lib/src/snippet.rs
@@ -47,7 +47,7 @@ impl<T> Snippet<T> {
 
     pub fn items(&self, range: Option<Range>) -> impl Iterator<Item = &T> {
         if let Some(range) = range {
-            debug_assert!(range.is_valid_for_max_end(self.len() + self.start));
+            debug_assert!(range.is_valid_for_max_end(self.len()));
             self.items[range.0..range.1].iter()
         } else {
             self.items.iter()
-- 
2.43.0


From b04f4dc96e2c80bf8af4433cce8fa6c6149012cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:10 +0000
Subject: [PATCH 06/17] fix: a hunk only applies to lines that no earlier hunk
 has used up

---
 pw_diff_lib/src/apply_text.rs | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pw_diff_lib/src/apply_text.rs b/pw_diff_lib/src/apply_text.rs
index e463b96..8d9d0db 100644
--- a/pw_diff_lib/src/apply_text.rs
+++ b/pw_diff_lib/src/apply_text.rs
@@ -131,6 +131,23 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         }
     }
 
+    /// As for `will_apply()` but without touching lines that have already been consumed.
+    fn will_apply_to_rest(
+        &self,
+        pd: &ConsumableSeq<String>,
+        offset: isize,
+        reverse: bool,
+    ) -> Option<WillApply> {
+        self.will_apply(pd.data(), offset, reverse)
+            .filter(|will_apply| {
+                let reductions = match will_apply {
+                    WillApply::Cleanly => None,
+                    WillApply::WithReductions(reductions) => Some(*reductions),
+                };
+                self.before_adjusted_start(offset, reductions, reverse) >= pd.consumed() as isize
+            })
+    }
+
     fn apply_into<W: io::Write>(
         &self,
         into: &mut W,
@@ -153,8 +170,7 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
         offset: isize,
         reverse: bool,
     ) -> Option<(isize, WillApply)> {
-        let length =
-            self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize;
+        let length = self.before_adjusted_length(Some(self.context_lengths()), reverse) as isize;
         let not_after = if let Some(next_clump) = next_clump {
             next_clump.before_adjusted_start(offset, Some(self.context_lengths()), reverse) - length
         } else {
@@ -170,7 +186,8 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
                 {
                     backward_done = true;
                 } else {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) = self.will_apply_to_rest(pd, adjusted_offset, reverse)
+                    {
                         return Some((-i, will_apply));
                     }
                 }
@@ -178,7 +195,8 @@ pub trait ApplyClumpFuzzy: TextClumpBasics {
             if !forward_done {
                 let adjusted_offset = offset + i;
                 if self.before_adjusted_start(adjusted_offset, None, reverse) < not_after {
-                    if let Some(will_apply) = self.will_apply(pd.data(), adjusted_offset, reverse) {
+                    if let Some(will_apply) = self.will_apply_to_rest(pd, adjusted_offset, reverse)
+                    {
                         return Some((i, will_apply));
                     }
                 } else {
@@ -269,7 +287,7 @@ where
         let mut offset: isize = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if let Some(will_apply) = clump.will_apply(patchable, offset, reverse) {
+            if let Some(will_apply) = clump.will_apply_to_rest(&pd, offset, reverse) {
                 match will_apply {
                     WillApply::Cleanly => {
                         clump.apply_into(into, &mut pd, offset, None, reverse)?;
@@ -298,7 +316,7 @@ where
                         log::warn!("Clump #{clump_num} applies with {reductions:?} reductions and offset {offset_adj}.");
                     }
                 }
-            } else if let Some(appplied) = clump.is_already_applied(patchable, offset, reverse) {
+            } else if let Some(appplied) = clump.will_apply_to_rest(&pd, offset, !reverse) {
                 match appplied {
                     WillApply::Cleanly => {
                         clump.already_applied_into(into, &mut pd, offset, None, reverse)?;
-- 
2.43.0


From 127aa9793edb1c6403b0a8463c5730a61de40696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:26 +0000
Subject: [PATCH 07/17] fix: a byte hunk only applies to data that no earlier
 hunk has used up

---
 pw_diff_lib/src/apply_bytes.rs | 9 +++++++--
 pw_diff_lib/src/byte_diff.rs   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pw_diff_lib/src/apply_bytes.rs b/pw_diff_lib/src/apply_bytes.rs
index dc37988..01c070f 100644
--- a/pw_diff_lib/src/apply_bytes.rs
+++ b/pw_diff_lib/src/apply_bytes.rs
@@ -7,6 +7,7 @@ use log;
 use crate::sequence::{ConsumableSeq, ConsumableSeqIfce, Seq};
 
 pub trait ApplyClumpClean {
+    fn before_start(&self, reverse: bool) -> usize;
     fn will_apply(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn is_already_applied(&self, se: &Seq<u8>, reverse: bool) -> bool;
     fn apply_into<W: io::Write>(
@@ -42,10 +43,14 @@ where
         let mut clump_num = 0;
         while let Some(clump) = iter.next() {
             clump_num += 1; // for human consumption
-            if clump.will_apply(patchable, reverse) {
+            // Only data that has not already been consumed can be changed
+            let consumed = pd.consumed();
+            if clump.before_start(reverse) >= consumed && clump.will_apply(patchable, reverse) {
                 clump.apply_into(&mut pd, into, reverse)?;
                 log::info!("Clump #{clump_num} applies cleanly.");
-            } else if clump.is_already_applied(patchable, reverse) {
+            } else if clump.before_start(!reverse) >= consumed
+                && clump.is_already_applied(patchable, reverse)
+            {
                 clump.already_applied_into(&mut pd, into, reverse)?;
                 log::warn!("Clump #{clump_num} already applied");
             } else {
diff --git a/pw_diff_lib/src/byte_diff.rs b/pw_diff_lib/src/byte_diff.rs
index 45bef4e..aad0ad5 100644
--- a/pw_diff_lib/src/byte_diff.rs
+++ b/pw_diff_lib/src/byte_diff.rs
@@ -51,6 +51,10 @@ impl ByteChangeClump {
 }
 
 impl<'a> ApplyClumpClean for ByteChangeClump {
+    fn before_start(&self, reverse: bool) -> usize {
+        self.before(reverse).start
+    }
+
     fn will_apply(&self, data: &Seq<u8>, reverse: bool) -> bool {
         let before = self.before(reverse);
         data.has_subsequence_at(&before.items, before.start)
-- 
2.43.0


From 4e7cd06346060e496432e4cb66c423f6ffe5762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 08/17] fix: only fall back from text to bytes when the content
 is not text

---
 pw_diff_lib/src/diff.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pw_diff_lib/src/diff.rs b/pw_diff_lib/src/diff.rs
index ce0a9d9..56c4fa6 100644
--- a/pw_diff_lib/src/diff.rs
+++ b/pw_diff_lib/src/diff.rs
@@ -25,16 +25,22 @@ impl Diff {
             if after_file_path.exists() {
                 match TextChangeDiff::new(before_file_path, after_file_path, context) {
                     Ok(text_change_diff) => Ok(Self::TextChange(text_change_diff)),
-                    Err(_) => Ok(Self::ByteChange(ByteChangeDiff::new(
-                        before_file_path,
-                        after_file_path,
-                        context,
-                    )?)),
+                    Err(err) if err.kind() == ErrorKind::InvalidData => {
+                        Ok(Self::ByteChange(ByteChangeDiff::new(
+                            before_file_path,
+                            after_file_path,
+                            context,
+                        )?))
+                    }
+                    Err(err) => Err(err),
                 }
             } else {
                 match PathAndLines::new(before_file_path) {
                     Ok(path_and_lines) => Ok(Self::TextRemove(path_and_lines)),
-                    Err(_) => Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?)),
+                    Err(err) if err.kind() == ErrorKind::InvalidData => {
+                        Ok(Self::ByteRemove(PathAndBytes::new(before_file_path)?))
+                    }
+                    Err(err) => Err(err),
                 }
             }
         } else if after_file_path.exists() {
@@ -43,11 +49,12 @@ impl Diff {
                     path_and_lines.change_path(&before_file_path);
                     Ok(Self::TextAdd(path_and_lines))
                 }
-                Err(_) => {
+                Err(err) if err.kind() == ErrorKind::InvalidData => {
                     let mut path_and_bytes = PathAndBytes::new(after_file_path)?;
                     path_and_bytes.change_path(&before_file_path);
                     Ok(Self::ByteAdd(path_and_bytes))
                 }
+                Err(err) => Err(err),
             }
         } else {
             Err(io::Error::new(
-- 
2.43.0


From d1a7e53d0997d001fc67ccadeabd5361acfae68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 09/17] fix: parse unified hunks with more than 255 lines of
 context

---
 pw_cub_diff_lib/src/unified_diff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 0b7af18..c3690ac 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -161,9 +161,9 @@ impl UnifiedDiffClump {
                 before_lines.push(line.as_str().to_string());
                 after_lines.push(line.as_str().to_string());
                 if at_the_front {
-                    start_context_length += 1
+                    start_context_length = start_context_length.saturating_add(1)
                 } else {
-                    end_context_length += 1
+                    end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = "-";
             } else {
-- 
2.43.0


From ace95fe19b37190d462eb4b30ac2c6a38b2a114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 10/17] fix: refuse unified hunks with more lines than their
 header declares

---
 pw_cub_diff_lib/src/unified_diff.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index c3690ac..012762f 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -147,17 +147,19 @@ impl UnifiedDiffClump {
             || after_lines.len() < starts_and_lengths.after.length
         {
             let line = *iter.next().check_end_of_input()?;
-            if line.starts_with('-') {
+            let before_is_short = before_lines.len() < starts_and_lengths.before.length;
+            let after_is_short = after_lines.len() < starts_and_lengths.after.length;
+            if line.starts_with('-') && before_is_short {
                 before_lines.push(line.as_str().to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "-";
-            } else if line.starts_with('+') {
+            } else if line.starts_with('+') && after_is_short {
                 after_lines.push(line.as_str().to_string());
                 end_context_length = 0;
                 at_the_front = false;
                 last_line_type = "+";
-            } else if line.starts_with(' ') {
+            } else if line.starts_with(' ') && before_is_short && after_is_short {
                 before_lines.push(line.as_str().to_string());
                 after_lines.push(line.as_str().to_string());
                 if at_the_front {
-- 
2.43.0


From ecf0b54b1e0da10ab8d5729df7239c7d8130f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:34 +0000
Subject: [PATCH 11/17] fix: a missing newline marker applies to both sides of
 a context line

---
 pw_cub_diff_lib/src/unified_diff.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 012762f..8515565 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -167,7 +167,7 @@ impl UnifiedDiffClump {
                 } else {
                     end_context_length = end_context_length.saturating_add(1)
                 }
-                last_line_type = "-";
+                last_line_type = " ";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
@@ -175,7 +175,7 @@ impl UnifiedDiffClump {
         }
         let mut lines_consumed = index + 1;
         if let Some(line) = iter.next() {
-            if line.starts_with("\\") {
+            if line.starts_with("\\") && last_line_type != "X" {
                 lines_consumed += 1;
                 if last_line_type == "-" {
                     let line = before_lines.pop().unwrap();
@@ -183,7 +183,7 @@ impl UnifiedDiffClump {
                 } else if last_line_type == "+" {
                     let line = after_lines.pop().unwrap();
                     after_lines.push(line.trim_end().to_string())
-                } else {
+                } else if last_line_type == " " {
                     let line = before_lines.pop().unwrap();
                     before_lines.push(line.trim_end().to_string());
                     let line = after_lines.pop().unwrap();
-- 
2.43.0


From ecd93991ebb8144fce901c767e69846232ae1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 12/17] fix: a missing newline marker removes the newline and
 nothing else

---
 pw_cub_diff_lib/src/unified_diff.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 8515565..f47526c 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -125,6 +125,17 @@ pub struct UnifiedDiffClump {
     pub lines_consumed: usize,
 }
 
+/// Remove the newline from the most recent line of the given type
+fn strip_newline(line_type: &str, before_lines: &mut [String], after_lines: &mut [String]) {
+    let before_line = before_lines.last_mut().filter(|_| line_type != "+");
+    let after_line = after_lines.last_mut().filter(|_| line_type != "-");
+    for line in before_line.into_iter().chain(after_line) {
+        if line.ends_with('\n') {
+            line.pop();
+        }
+    }
+}
+
 impl UnifiedDiffClump {
     pub fn get_from_at(lines: &Seq<String>, start_index: usize) -> DiffParseResult<Option<Self>> {
         let mut iter = lines.subsequence(lines.range_from(start_index));
@@ -177,18 +188,7 @@ impl UnifiedDiffClump {
         if let Some(line) = iter.next() {
             if line.starts_with("\\") && last_line_type != "X" {
                 lines_consumed += 1;
-                if last_line_type == "-" {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string())
-                } else if last_line_type == "+" {
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                } else if last_line_type == " " {
-                    let line = before_lines.pop().unwrap();
-                    before_lines.push(line.trim_end().to_string());
-                    let line = after_lines.pop().unwrap();
-                    after_lines.push(line.trim_end().to_string())
-                }
+                strip_newline(last_line_type, &mut before_lines, &mut after_lines);
             }
         }
         Ok(Some(Self {
-- 
2.43.0


From 55419023852f2b6c3894a9c3f8ea90a5c597beff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 13/17] fix: accept a missing newline marker after any line of
 a hunk

---
 pw_cub_diff_lib/src/unified_diff.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index f47526c..66632de 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -179,6 +179,9 @@ impl UnifiedDiffClump {
                     end_context_length = end_context_length.saturating_add(1)
                 }
                 last_line_type = " ";
+            } else if line.starts_with('\\') && last_line_type != "X" {
+                strip_newline(last_line_type, &mut before_lines, &mut after_lines);
+                last_line_type = "X";
             } else {
                 return Err(DiffParseError::UnexpectedEndClump(start_index + index + 1));
             }
-- 
2.43.0


From eb027addf2c366ade5cca71182f934ca13edc31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:35 +0000
Subject: [PATCH 14/17] fix: mark every unified diff line that has no newline

---
 pw_cub_diff_lib/src/unified_diff.rs | 30 ++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pw_cub_diff_lib/src/unified_diff.rs b/pw_cub_diff_lib/src/unified_diff.rs
index 66632de..9523c1b 100644
--- a/pw_cub_diff_lib/src/unified_diff.rs
+++ b/pw_cub_diff_lib/src/unified_diff.rs
@@ -253,6 +253,14 @@ pub struct UnifiedClumpText {
     pub lines: Vec<String>,
 }
 
+/// Add the line (and a marker if it has no newline) to the lines
+fn push_line(lines: &mut Vec<String>, prefix: char, line: &str) {
+    lines.push(format!("{prefix}{line}"));
+    if !line.ends_with('\n') {
+        lines.push("\n\\\n".to_string());
+    }
+}
+
 pub struct UnifiedClumpIter<'a> {
     pub before: &'a Seq<String>,
     pub after: &'a Seq<String>,
@@ -287,46 +295,38 @@ impl<'a> Iterator for UnifiedClumpIter<'a> {
             match change {
                 NoChange(common_subsequence) => {
                     for line in self.before.subsequence(common_subsequence.before_range()) {
-                        lines.push(format!(" {line}"));
+                        push_line(&mut lines, ' ', line);
                     }
                 }
                 Delete(before_range, _) => {
                     for line in self.before.subsequence(*before_range) {
-                        lines.push(format!("-{line}"));
+                        push_line(&mut lines, '-', line);
                     }
                 }
                 Insert(_, after_range) => {
                     for line in self.after.subsequence(*after_range) {
-                        lines.push(format!("+{line}"));
+                        push_line(&mut lines, '+', line);
                     }
                 }
                 Replace(before_range, after_range) => {
                     if before_range.len() < after_range.len() {
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                     } else {
                         for line in self.after.subsequence(*after_range) {
-                            lines.push(format!("+{line}"));
+                            push_line(&mut lines, '+', line);
                         }
                         for line in self.before.subsequence(*before_range) {
-                            lines.push(format!("-{line}"));
+                            push_line(&mut lines, '-', line);
                         }
                     }
                 }
             }
         }
-        if !lines
-            .last()
-            .expect("impl Iterator for UnifiedClumpIter")
-            .ends_with("\n")
-        {
-            lines.push("\n\\\n".to_string());
-        }
-
         Some(UnifiedClumpText { header, lines })
     }
 }
-- 
2.43.0


From 2d90c0d00600831c97b4dbf814e4d95947495928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 15/17] fix: report a failure to write the end of the diff

---
 pw_diff/src/main.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pw_diff/src/main.rs b/pw_diff/src/main.rs
index 0c3e810..2fa4f79 100644
--- a/pw_diff/src/main.rs
+++ b/pw_diff/src/main.rs
@@ -1,6 +1,6 @@
 // Copyright 2024 Peter Williams <pwil3058@gmail.com> <pwil3058@bigpond.net.au>
 
-use std::io;
+use std::io::{self, Write};
 use std::path::PathBuf;
 
 use clap::Parser;
@@ -44,7 +44,12 @@ fn main() {
         }
     };
 
-    match diff.to_writer(&mut io::stdout()) {
+    let mut stdout = io::stdout();
+    match diff
+        .to_writer(&mut stdout)
+        .map_err(io::Error::from)
+        .and_then(|_| stdout.flush())
+    {
         Ok(_) => (),
         Err(err) => {
             log::error!("Error writing diff: {err}");
-- 
2.43.0


From 95e5ca0722cee61b1ae94ba3db958167c26ae78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 16/17] fix: remove the temporary file when patching fails

---
 pw_patch/src/main.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 0e62b12..8e7c750 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -72,6 +72,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -81,12 +82,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
@@ -168,6 +171,7 @@ fn main() {
                         Ok(file) => file,
                         Err(err) => {
                             log::error!("Error opening temporary file: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     };
@@ -177,12 +181,14 @@ fn main() {
                                 Ok(_) => log::info!("{stats:?}"),
                                 Err(err) => {
                                     log::error!("Error writing patched file: {err}");
+                                    drop(temp_file);
                                     std::process::exit(1);
                                 }
                             };
                         }
                         Err(err) => {
                             log::error!("Patch failed to apply: {err}");
+                            drop(temp_file);
                             std::process::exit(1);
                         }
                     }
-- 
2.43.0


From 6ca6391973f13f3d2bdc9e5f221b3116d9e4814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:32 +0000
Subject: [PATCH 17/17] fix: report failed additions, and leave no part of the
 file behind

---
 pw_patch/src/main.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pw_patch/src/main.rs b/pw_patch/src/main.rs
index 8e7c750..328767d 100644
--- a/pw_patch/src/main.rs
+++ b/pw_patch/src/main.rs
@@ -115,11 +115,14 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -131,11 +134,14 @@ fn main() {
                     Ok(mut file) => match path_and_lines.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
@@ -214,11 +220,14 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             }
@@ -230,11 +239,14 @@ fn main() {
                     Ok(mut file) => match path_and_bytes.write_into(&mut file) {
                         Ok(_) => log::info!("{path:?} created"),
                         Err(err) => {
-                            log::error!("{path:?} creation failed: {err}")
+                            log::error!("{path:?} creation failed: {err}");
+                            let _ = fs::remove_file(path);
+                            std::process::exit(1)
                         }
                     },
                     Err(err) => {
-                        log::error!("{path:?} creation failed: {err}")
+                        log::error!("{path:?} creation failed: {err}");
+                        std::process::exit(1)
                     }
                 }
             } else {
-- 
2.43.0

