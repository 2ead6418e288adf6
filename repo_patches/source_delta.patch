From 2a436b548c446b918e54ba4afed958cdaa304ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 01/10] fix: grow the char buffer in parse_not_extended

Queries of more than 64 characters indexed past the end of the buffer.
---
 src/metrics/fzf/parser.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/metrics/fzf/parser.rs b/src/metrics/fzf/parser.rs
index 08647e8..a68408f 100644
--- a/src/metrics/fzf/parser.rs
+++ b/src/metrics/fzf/parser.rs
@@ -170,6 +170,12 @@ impl FzfParser {
     /// ```
     #[inline]
     pub fn parse_not_extended<'a>(&'a mut self, query: &str) -> FzfQuery<'a> {
+        let max_chars = query.len();
+
+        if self.chars.len() < max_chars {
+            self.chars.resize(max_chars, char::default());
+        }
+
         let mut char_len = 0;
 
         for ch in query.chars() {
-- 
2.43.0


From 6a51cd376460664cdc556fc47075920eab06274e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 02/10] fix: don't drop the negation of a lone inverse fuzzy
 pattern

The query "!'foo" was turned into the non-extended query "foo", so it
matched exactly the candidates it should have filtered out.
---
 src/metrics/fzf/query.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/metrics/fzf/query.rs b/src/metrics/fzf/query.rs
index fdf913b..d54b058 100644
--- a/src/metrics/fzf/query.rs
+++ b/src/metrics/fzf/query.rs
@@ -59,6 +59,7 @@ impl<'a> FzfQuery<'a> {
 
             if patterns.next().is_none()
                 && matches!(first_pattern.match_type, MatchType::Fuzzy)
+                && !first_pattern.is_inverse
             {
                 return Self {
                     search_mode: SearchMode::NotExtended(first_pattern),
-- 
2.43.0


From bdbc5d5e8fcab7e8d157aebae253b1d2401db464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:15 +0000
Subject: [PATCH 03/10] fix: leave the ranges buffer untouched if the candidate
 doesn't match

When one of the conditions of an extended query didn't match, the ranges
of the conditions before it were left in the buffer.
---
 src/matched_ranges.rs  |  7 +++++++
 src/metrics/fzf/fzf.rs | 10 ++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 664ad61..82e6524 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -59,6 +59,13 @@ impl<'a> MatchedRanges<'a> {
         self.ranges[self.initial_len..].binary_search_by(fun)
     }
 
+    /// Removes all the ranges inserted so far, leaving the ones that were
+    /// already in the buffer untouched.
+    #[inline(always)]
+    pub(crate) fn clear(&mut self) {
+        self.ranges.truncate(self.initial_len);
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 7eb0339..70e2d89 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -163,9 +163,15 @@ pub(super) trait Fzf {
             SearchMode::Extended(conditions) => {
                 let mut total_score: Score = 0;
                 for condition in conditions {
-                    total_score += condition.iter().find_map(|pattern| {
+                    let Some(score) = condition.iter().find_map(|pattern| {
                         self.score::<RANGES>(pattern, candidate, ranges)
-                    })?;
+                    }) else {
+                        // Remove the ranges inserted by the conditions that
+                        // did match.
+                        ranges.clear();
+                        return None;
+                    };
+                    total_score += score;
                 }
                 Some(FzfDistance::from_score(total_score))
             },
-- 
2.43.0


From f54c8dbbb12d4c00f0351b5a5d0d38da2a974fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 04/10] fix: merge all the ranges that a new matched range
 reaches

When a new range extended past the end of the range (or ranges) it
overlapped with, part of it was dropped, and the ranges reported for
queries with overlapping conditions didn't cover all of the match.
---
 src/matched_ranges.rs | 57 ++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/src/matched_ranges.rs b/src/matched_ranges.rs
index 82e6524..3fe98c0 100644
--- a/src/matched_ranges.rs
+++ b/src/matched_ranges.rs
@@ -66,6 +66,34 @@ impl<'a> MatchedRanges<'a> {
         self.ranges.truncate(self.initial_len);
     }
 
+    /// Extends the end of the range at the given index up to `new_end`,
+    /// merging it with all the following ranges that it reaches.
+    ///
+    /// Does nothing if the range already includes `new_end`.
+    #[inline(always)]
+    fn extend_end(&mut self, idx: usize, new_end: usize) {
+        let Some(range) = self.get_mut(idx) else { return };
+
+        if range.end >= new_end {
+            return;
+        }
+
+        range.end = new_end;
+
+        while let Some(next_range) = self.get_mut(idx + 1) {
+            if next_range.start > new_end {
+                break;
+            }
+
+            let next_end = self.remove(idx + 1).end;
+
+            if next_end > new_end {
+                self.ranges[self.initial_len + idx].end = next_end;
+                break;
+            }
+        }
+    }
+
     /// TODO: docs
     #[inline(always)]
     fn get_mut(&mut self, idx: usize) -> Option<&mut Range<usize>> {
@@ -82,29 +110,7 @@ impl<'a> MatchedRanges<'a> {
 
             // The range at `idx` and the new range have the same start.
             Ok(idx) => {
-                let (range, next_range) = {
-                    let (left, right) = self.split_at_mut(idx + 1);
-                    (&mut left[idx], right.get_mut(0))
-                };
-
-                if range.end >= new_range.end {
-                    // The new range is completely contained within this
-                    // existing range.
-                    return;
-                }
-
-                if let Some(next_range) = next_range {
-                    if new_range.end >= next_range.start {
-                        // The new range fills the gap between this range and
-                        // the next one.
-                        range.end = next_range.end;
-                        self.remove(idx + 1);
-                        return;
-                    }
-                }
-
-                range.end = new_range.end;
-
+                self.extend_end(idx, new_range.end);
                 return;
             },
         };
@@ -118,6 +124,7 @@ impl<'a> MatchedRanges<'a> {
 
             if new_range.end >= first_range.start {
                 first_range.start = new_range.start;
+                self.extend_end(0, new_range.end);
             } else {
                 self.insert_at(0, new_range);
             }
@@ -152,8 +159,7 @@ impl<'a> MatchedRanges<'a> {
             // ------   ------    =>    ---------------
             //     xxxxxxx
             (true, true) => {
-                prev_range.end = next_range.end;
-                self.remove(insert_idx);
+                self.extend_end(insert_idx - 1, new_range.end);
             },
 
             // The new range starts within an existing range but ends before
@@ -173,6 +179,7 @@ impl<'a> MatchedRanges<'a> {
             //         xxxx
             (false, true) => {
                 next_range.start = new_range.start;
+                self.extend_end(insert_idx, new_range.end);
             },
 
             // The new range is strictly within an existing gap, so we just
-- 
2.43.0


From 58bee7af1226bed9db1ebcd55db4dd3221197c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 05/10] fix: never let the cells of FzfV2's scoring matrix
 become negative

Scores are signed, so `saturating_sub` didn't stop the gap penalties at
zero like fzf does.
---
 src/metrics/fzf/fzf_v2.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 7b4061d..6f95470 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -444,7 +444,7 @@ fn score_first_row(
         penalty = penalty::GAP_START;
 
         for col in column + 1..char_offset {
-            let score = prev_score.saturating_sub(penalty);
+            let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
             prev_score = score;
             penalty = penalty::GAP_EXTENSION;
@@ -469,7 +469,7 @@ fn score_first_row(
     }
 
     for col in column + 1..scores_first_row.len() {
-        let score = prev_score.saturating_sub(penalty);
+        let score = (prev_score - penalty).max(0);
         scores_first_row[col] = score;
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
@@ -514,14 +514,14 @@ fn score_remaining_rows(
 
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
-                let score = score_left.saturating_sub(penalty);
+                let score = (score_left - penalty).max(0);
                 scores_row[col] = score;
                 penalty = penalty::GAP_EXTENSION;
             }
 
             column = char_offset;
 
-            let score_left = scores_row[column - 1].saturating_sub(penalty);
+            let score_left = (scores_row[column - 1] - penalty).max(0);
 
             let mut score_up_left = prev_scores_row[column - 1] + bonus::MATCH;
 
@@ -560,7 +560,7 @@ fn score_remaining_rows(
 
         for col in column + 1..matrix_width {
             let score_left = scores_row[col - 1];
-            let score = score_left.saturating_sub(penalty);
+            let score = (score_left - penalty).max(0);
             scores_row[col] = score;
             penalty = penalty::GAP_EXTENSION;
         }
-- 
2.43.0


From fbd66dd06dd0223f8cd7362854e34c090e65aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:56 +0000
Subject: [PATCH 06/10] fix: apply FzfV2's gap penalties like fzf does

The first character after a match was charged an extension instead of a
gap start if there was a gap before the match and no other match after
it, and a gap start was charged again every time a gap skipped over a
character equal to the one being searched, so that FzfV2 could report a
worse distance than FzfV1 on the same alignment.
---
 src/metrics/fzf/fzf_v2.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 6f95470..5e69fc4 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -441,8 +441,6 @@ fn score_first_row(
     let mut penalty = penalty::GAP_START;
 
     for char_offset in candidate.matches(first_pattern_char) {
-        penalty = penalty::GAP_START;
-
         for col in column + 1..char_offset {
             let score = (prev_score - penalty).max(0);
             scores_first_row[col] = score;
@@ -466,6 +464,8 @@ fn score_first_row(
         }
 
         prev_score = score;
+
+        penalty = penalty::GAP_START;
     }
 
     for col in column + 1..scores_first_row.len() {
@@ -510,8 +510,6 @@ fn score_remaining_rows(
         for char_offset in
             candidate.matches_from(first_match_offset, pattern_char)
         {
-            penalty = penalty::GAP_START;
-
             for col in column + 1..char_offset {
                 let score_left = scores_row[col - 1];
                 let score = (score_left - penalty).max(0);
@@ -548,6 +546,14 @@ fn score_remaining_rows(
 
             let score = score_left.max(score_up_left);
 
+            // If the character at this column is better skipped than matched
+            // we're still in a gap.
+            penalty = if score_up_left < score_left {
+                penalty::GAP_EXTENSION
+            } else {
+                penalty::GAP_START
+            };
+
             if score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
-- 
2.43.0


From 518a879e9d2f1a924717ba1a789207464234f449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 07/10] fix: only consider alignments of the whole pattern in
 FzfV2

The best score was searched in all the rows of the scoring matrix, so if
the gap before one of the last characters of the query was long enough
the metric returned the distance and the ranges of a prefix of the query.
---
 src/metrics/fzf/fzf_v2.rs | 29 +++++++++++------------------
 1 file changed, 11 insertions(+), 18 deletions(-)

diff --git a/src/metrics/fzf/fzf_v2.rs b/src/metrics/fzf/fzf_v2.rs
index 5e69fc4..04c2860 100644
--- a/src/metrics/fzf/fzf_v2.rs
+++ b/src/metrics/fzf/fzf_v2.rs
@@ -399,7 +399,7 @@ fn score<'scoring, 'consecutive>(
     let mut consecutive_matrix =
         consecutive_slab.alloc(matrix_width, matrix_height);
 
-    let (max_score, max_score_cell) = score_first_row(
+    score_first_row(
         scoring_matrix.row_mut(0),
         consecutive_matrix.row_mut(0),
         pattern.char(0),
@@ -414,8 +414,6 @@ fn score<'scoring, 'consecutive>(
         candidate,
         scheme,
         matches,
-        max_score,
-        max_score_cell,
     );
 
     (scoring_matrix, consecutive_matrix, max_score, max_score_cell)
@@ -429,13 +427,9 @@ fn score_first_row(
     first_pattern_char: char,
     candidate: &mut CandidateV2,
     scheme: &Scheme,
-) -> (Score, MatrixCell) {
-    let mut max_score: Score = 0;
-
+) {
     let mut prev_score: Score = 0;
 
-    let mut max_score_col: usize = 0;
-
     let mut column = 0;
 
     let mut penalty = penalty::GAP_START;
@@ -458,11 +452,6 @@ fn score_first_row(
 
         scores_first_row[column] = score;
 
-        if score > max_score {
-            max_score = score;
-            max_score_col = column;
-        }
-
         prev_score = score;
 
         penalty = penalty::GAP_START;
@@ -474,8 +463,6 @@ fn score_first_row(
         prev_score = score;
         penalty = penalty::GAP_EXTENSION;
     }
-
-    (max_score, MatrixCell(max_score_col))
 }
 
 /// TODO: docs
@@ -487,11 +474,15 @@ fn score_remaining_rows(
     candidate: &mut CandidateV2,
     scheme: &Scheme,
     matches: &[usize],
-    mut max_score: Score,
-    mut max_score_cell: MatrixCell,
 ) -> (Score, MatrixCell) {
     let matrix_width = scores.width();
 
+    let last_row_idx = scores.height() - 1;
+
+    let mut max_score: Score = 0;
+
+    let mut max_score_cell = MatrixCell(0);
+
     for row_idx in 1..scores.height() {
         let pattern_char = pattern.char(row_idx);
 
@@ -554,7 +545,9 @@ fn score_remaining_rows(
                 penalty::GAP_START
             };
 
-            if score > max_score {
+            // Only the cells of the last row score an alignment of the whole
+            // pattern.
+            if row_idx == last_row_idx && score > max_score {
                 max_score = score;
                 max_score_cell = MatrixCell(row_idx * matrix_width + column);
             }
-- 
2.43.0


From 1207b4bf2c43e7ad0efe3a43bb799c796b04f045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 08/10] fix: use the right previous character when an exact
 match restarts

After a failed attempt the bonus of the next occurrence could be computed
from the character at which the attempt stopped instead of from the one
before the occurrence, so the wrong occurrence could be picked.
---
 src/metrics/fzf/fzf.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/metrics/fzf/fzf.rs b/src/metrics/fzf/fzf.rs
index 70e2d89..4255c17 100644
--- a/src/metrics/fzf/fzf.rs
+++ b/src/metrics/fzf/fzf.rs
@@ -204,11 +204,15 @@ fn exact_match<const RANGES: bool>(
     // TODO: docs
     let mut matched = false;
 
-    let mut prev_class = scheme.initial_char_class;
-
     let mut start_offset = 0;
 
     'outer: loop {
+        let mut prev_class = if start_offset == 0 {
+            scheme.initial_char_class
+        } else {
+            char_class(candidate.char(start_offset - 1), scheme)
+        };
+
         let current_start_offset = start_offset;
         let mut bonus_start = 0;
         let mut current_bonus: Score = 0;
-- 
2.43.0


From f457f0c5356922677f83bd8326642bdb4fcf5a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:42 +0000
Subject: [PATCH 09/10] fix: ignore the case of non-ASCII letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`CaseSensitivity::Insensitive` (and `Smart`, for lowercase queries) only
ignored the case of ASCII letters, so "über" didn't match "ÜBER".
---
 src/utils.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 61f16b6..15f68de 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -15,12 +15,17 @@ pub fn ascii_letter_flip_case(ascii_letter: u8) -> u8 {
 
 #[inline(always)]
 pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&rhs)
+    if lhs.is_ascii() || rhs.is_ascii() {
+        lhs.eq_ignore_ascii_case(&rhs)
+    } else {
+        lhs == rhs || lhs.to_lowercase().eq(rhs.to_lowercase())
+    }
 }
 
 #[inline(always)]
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
-    lhs.eq_ignore_ascii_case(&normalize_candidate_char(lhs, rhs))
+    case_insensitive_eq(lhs, rhs)
+        || case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
 }
 
 #[inline(always)]
-- 
2.43.0


From 6fb094774d50c41a96d5d0212f0c1dd0d989149b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 10/10] fix: normalize uppercase candidate letters in
 case-insensitive searches
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The normalization table doesn't include the uppercase variant of some of its
letters, so "a" matched "ā" but not "Ā" even when ignoring case.
---
 src/utils.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/utils.rs b/src/utils.rs
index 15f68de..7b0f9c4 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -26,6 +26,11 @@ pub fn case_insensitive_eq(lhs: char, rhs: char) -> bool {
 pub fn case_insensitive_normalized_eq(lhs: char, rhs: char) -> bool {
     case_insensitive_eq(lhs, rhs)
         || case_insensitive_eq(lhs, normalize_candidate_char(lhs, rhs))
+        // Not all the uppercase letters are in the normalization table.
+        || case_insensitive_eq(
+            lhs,
+            normalize_candidate_char(lhs, to_lowercase(rhs)),
+        )
 }
 
 #[inline(always)]
@@ -64,6 +69,18 @@ fn normalize_candidate_char(query_char: char, candidate_char: char) -> char {
     }
 }
 
+/// Returns the lowercase version of the given character, or the character
+/// itself if that's made up of more than one character.
+#[inline(always)]
+fn to_lowercase(ch: char) -> char {
+    let mut lowercase = ch.to_lowercase();
+
+    match (lowercase.next(), lowercase.next()) {
+        (Some(lower), None) => lower,
+        _ => ch,
+    }
+}
+
 /// TODO: docs
 #[inline(always)]
 pub fn strip_leading_spaces(s: &str) -> &str {
-- 
2.43.0

