From efcac434a5d6b058b16de71ab7ca1196f07f4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 01/59] fix: don't panic when a list item's indent is as wide
 as the available width

The width available for a token was computed with a subtraction which
underflowed when wrapping a deeply indented item in a narrow width
---
 src/fit/wrap.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 8823507..4d97c23 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -102,7 +102,9 @@ pub fn hard_wrap_composite<'s, 'c>(
         return Ok(composites);
     }
 
-    let mut tokens = tokenize(&src_composite.compounds, width - first_width);
+    // the prefix (bullet, indent...) may be as wide as the available width
+    let max_token_width = width.saturating_sub(first_width).max(1);
+    let mut tokens = tokenize(&src_composite.compounds, max_token_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
     for token in tokens.drain(..) {
-- 
2.43.0


From df3c5702f93640c4bc4da12e5c3fd358b485ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 02/59] fix: don't join two words when wrapping drops the blank
 between them

When a blank was too wide for the end of a line, it was dropped but the
next word could still be added to the line, glued to the previous one.
---
 src/fit/wrap.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 4d97c23..3b90bb1 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -107,11 +107,15 @@ pub fn hard_wrap_composite<'s, 'c>(
     let mut tokens = tokenize(&src_composite.compounds, max_token_width);
     // Strategy 2:
     // we try to cut along tokens, using spaces to break
+    let mut break_pending = false; // true when we skipped a blank at the end of the line
     for token in tokens.drain(..) {
         // TODO: does that really take first_width into account ?
-        if dst_composite.visible_length + token.width > width {
-            if !token.blank {
+        if break_pending || dst_composite.visible_length + token.width > width {
+            if token.blank {
                 // we skip blank composite at line change
+                break_pending = true;
+            } else {
+                break_pending = false;
                 let mut repl_composite = follow_up_composite(&dst_composite, skin);
                 std::mem::swap(&mut dst_composite, &mut repl_composite);
                 composites.push(repl_composite);
-- 
2.43.0


From 892d8446ed55f5fc4169eb42647867503b9955a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:13 +0000
Subject: [PATCH 03/59] fix: don't let a code block be padded wider than the
 available width

The lines of a block were all completed to the width of the widest
source line, even when that line had to be wrapped.
---
 src/fit/wrap.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/fit/wrap.rs b/src/fit/wrap.rs
index 3b90bb1..3c9653f 100644
--- a/src/fit/wrap.rs
+++ b/src/fit/wrap.rs
@@ -142,12 +142,17 @@ pub fn hard_wrap_lines<'s>(
     let mut src_lines = src_lines;
     let mut lines = Vec::new();
     for src_line in src_lines.drain(..) {
-        if let FmtLine::Normal(fc) = src_line {
+        if let FmtLine::Normal(mut fc) = src_line {
             let (left_margin, right_margin) = skin.line_style(fc.kind).margins_in(Some(width));
-            if fc.visible_length + left_margin + right_margin <= width {
+            let inner_width = width - left_margin - right_margin;
+            if let Some(spacing) = fc.spacing.as_mut() {
+                // a justified block can't be wider than what's available
+                spacing.width = spacing.width.min(inner_width);
+            }
+            if fc.visible_length <= inner_width {
                 lines.push(FmtLine::Normal(fc));
             } else {
-                for fc in hard_wrap_composite(&fc, width - left_margin - right_margin, skin)? {
+                for fc in hard_wrap_composite(&fc, inner_width, skin)? {
                     lines.push(FmtLine::Normal(fc));
                 }
             }
-- 
2.43.0


From 881e210cb4bb924da3ec36488da0cf7bc67fa23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:28 +0000
Subject: [PATCH 04/59] fix: count the two borders of a table rule without
 column

Its width was assumed to be 1, so it was completed to one column more
than the available width
---
 src/line.rs | 2 +-
 src/skin.rs | 2 +-
 src/tbl.rs  | 6 ++++++
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/line.rs b/src/line.rs
index 20e3f72..f2c84ce 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -44,7 +44,7 @@ impl<'s> FmtLine<'s> {
         match self {
             FmtLine::Normal(composite) => composite.visible_length,
             FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
-            FmtLine::TableRule(rule) => 1 + rule.widths.iter().fold(0, |s, w| s + w + 1),
+            FmtLine::TableRule(rule) => rule.visible_length(),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
     }
diff --git a/src/skin.rs b/src/skin.rs
index 827afa2..f648704 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -612,7 +612,7 @@ impl MadSkin {
                 }
             }
             FmtLine::TableRule(rule) => {
-                let tbl_width = 1 + rule.widths.iter().fold(0, |sum, w| sum + w + 1);
+                let tbl_width = rule.visible_length();
                 let (lpo, rpo) = Spacing::optional_completions(self.table.align, tbl_width, width);
                 self.paragraph.repeat_space(f, lpo)?;
                 write!(
diff --git a/src/tbl.rs b/src/tbl.rs
index bb8771b..887f411 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -41,6 +41,12 @@ pub struct FmtTableRule {
 }
 
 impl FmtTableRule {
+    /// Width of the rule, borders included.
+    ///
+    /// There are always two borders, even when there's no column
+    pub(crate) fn visible_length(&self) -> usize {
+        (1 + self.widths.iter().fold(0, |s, w| s + w + 1)).max(2)
+    }
     pub fn set_nbcols(&mut self, nbcols: usize) {
         self.widths.truncate(nbcols);
         self.aligns.truncate(nbcols);
-- 
2.43.0


From db51c10b7c3f9553347084e5a7753efa4f192571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:09 +0000
Subject: [PATCH 05/59] fix: don't panic when columns are removed from a table
 with short rows

When there's not enough width for all columns, the cells missing in a
row were added without their entry in the list of wrapped parts, whose
next index was thus out of bounds
---
 src/tbl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tbl.rs b/src/tbl.rs
index 887f411..eb27f9e 100644
--- a/src/tbl.rs
+++ b/src/tbl.rs
@@ -135,12 +135,12 @@ impl Table {
                 let mut cells_to_add: Vec<Vec<FmtComposite<'_>>> = Vec::new();
                 cells.truncate(nbcols);
                 for ic in 0..nbcols {
+                    cells_to_add.push(Vec::new());
                     if cells.len() <= ic {
                         //FIXME isn't this already done ?
                         cells.push(FmtComposite::new());
                         continue;
                     }
-                    cells_to_add.push(Vec::new());
                     if cells[ic].visible_length > widths[ic] {
                         // we must wrap the cell over several lines
                         let mut composites =
-- 
2.43.0


From c4c1ab683bc58ce7b1e90765cf5ec85473f88dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 06/59] fix: don't insert an ellipsis which doesn't replace
 anything

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index 7e12f88..f9f31c4 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -171,6 +171,10 @@ impl Zone {
                 break;
             }
         }
+        if removed_width < 2 {
+            // the ellipsis would take as much space as what it replaces
+            return 0;
+        }
         let start_byte_idx = self.byte_start_idx + self.char_infos[start_char_idx].byte_idx;
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
-- 
2.43.0


From 289ebc0653223d143c909d120d7e1d04d5af7698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 07/59] fix: don't panic when removing the left part of a
 composite with an empty compound

---
 src/fit/composite_fit.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index f9f31c4..ba0534a 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -279,6 +279,10 @@ impl Fitter {
             // left truncating
             while excess_left > 0 && !compounds.is_empty() {
                 let compound = &mut compounds[0];
+                if compound.src.is_empty() {
+                    compounds.remove(0);
+                    continue;
+                }
                 let char_infos = str_char_infos(compound.src);
                 let mut last_removed_char_idx = 0;
                 let mut removed_width = 0;
-- 
2.43.0


From 040ea889b31f6a0d703592070865297e62f236cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 08/59] fix: don't panic on building a text for an area without
 width

---
 src/skin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index f648704..6aa475c 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -363,7 +363,7 @@ impl MadSkin {
     ///
     /// Code blocs will be right justified
     pub fn area_text<'k, 's>(&'k self, src: &'s str, area: &Area) -> FmtText<'k, 's> {
-        FmtText::from(self, src, Some(area.width as usize - 1))
+        FmtText::from(self, src, Some((area.width as usize).saturating_sub(1)))
     }
 
     pub fn write_in_area(&self, markdown: &str, area: &Area) -> Result<()> {
-- 
2.43.0


From 6bcd9915498f356fe932d097a13d35a622eaeb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 09/59] fix: count spaces and borders in the content width

---
 src/composite.rs | 5 +++++
 src/line.rs      | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/composite.rs b/src/composite.rs
index 04dbc6a..5982fcb 100644
--- a/src/composite.rs
+++ b/src/composite.rs
@@ -53,6 +53,11 @@ impl<'s> FmtComposite<'s> {
             None => (0, 0),
         }
     }
+    /// Return the width in cells, including the inner completions
+    pub(crate) fn spaced_length(&self) -> usize {
+        self.spacing
+            .map_or(self.visible_length, |sp| sp.width.max(self.visible_length))
+    }
     /// Add a compound and modifies `visible_length` accordingly
     #[inline(always)]
     pub fn add_compound(&mut self, compound: Compound<'s>) {
diff --git a/src/line.rs b/src/line.rs
index f2c84ce..52bd529 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -42,8 +42,8 @@ impl<'s> FmtLine<'s> {
     }
     pub fn visible_length(&self) -> usize {
         match self {
-            FmtLine::Normal(composite) => composite.visible_length,
-            FmtLine::TableRow(row) => row.cells.iter().fold(0, |s, c| s + c.visible_length), // Is that right ? no spacing ?
+            FmtLine::Normal(composite) => composite.spaced_length(),
+            FmtLine::TableRow(row) => row.cells.iter().fold(1, |s, c| s + c.spaced_length() + 1), // with borders
             FmtLine::TableRule(rule) => rule.visible_length(),
             FmtLine::HorizontalRule => 0, // No intrinsic width
         }
-- 
2.43.0


From 594ac7caf2b5cd4f9dc0556149050332b0da45fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 10/59] fix: don't let margins push a line out of the area it's
 written in

---
 src/skin.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/skin.rs b/src/skin.rs
index 6aa475c..9b9a20b 100644
--- a/src/skin.rs
+++ b/src/skin.rs
@@ -519,13 +519,18 @@ impl MadSkin {
         with_margins: bool,
     ) -> fmt::Result {
         let ls = self.line_style(fc.kind);
-        let (left_margin, right_margin) = if with_margins {
+        let (mut left_margin, mut right_margin) = if with_margins {
             ls.margins_in(outer_width)
         } else {
             (0, 0)
         };
         let (lpi, rpi) = fc.completions(); // inner completion
         let inner_width = fc.spacing.map_or(fc.visible_length, |sp| sp.width);
+        if outer_width.is_some_and(|w| inner_width + left_margin + right_margin > w) {
+            // the line was wrapped for a width which didn't allow the margins
+            left_margin = 0;
+            right_margin = 0;
+        }
         let (lpo, rpo) = Spacing::optional_completions(
             ls.align,
             inner_width + left_margin + right_margin,
-- 
2.43.0


From e83e800358afc57da89c35d2383933e8b42002a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 11/59] fix: keep the scrollbar thumb inside the area

---
 src/area.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/area.rs b/src/area.rs
index 0b0c7ca..3637788 100644
--- a/src/area.rs
+++ b/src/area.rs
@@ -146,6 +146,10 @@ where
             .min(top + available_height - 2)
             .max(scrollbar_top);
     }
+    // the thumb must not go out of the track
+    let track_bottom = top + available_height.max(1) - 1;
+    let scrollbar_top = scrollbar_top.min(track_bottom);
+    let scrollbar_bottom = scrollbar_bottom.min(track_bottom);
     // by construction those two conversions are OK
     // (or it's a bug, which, well, is possible...)
     let scrollbar_top = scrollbar_top.try_into().unwrap();
-- 
2.43.0


From a3f08088304af98167469a558b49418c3a25049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 12/59] fix: right scrollbar for a text of more than 65535
 lines

---
 src/views/text_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index e35065c..83f04da 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -84,7 +84,7 @@ impl<'a, 't> TextView<'a, 't> {
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         if self.show_scrollbar {
             self.area
-                .scrollbar(self.scroll as u16, self.content_height() as u16)
+                .scrollbar(self.scroll, self.content_height())
         } else {
             None
         }
-- 
2.43.0


From 16c402dbc6f73584cd017a0979e1849861ec7c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 13/59] fix: don't panic on scrolling by a very big number of
 lines or pages

---
 src/views/mad_view.rs  | 2 +-
 src/views/text_view.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 7cbb8c2..831f848 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -69,7 +69,7 @@ impl MadView {
     /// set the scroll amount.
     /// lines_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * i32::from(self.area.height));
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.area.height)));
     }
     /// Apply an event being a key: page_up, page_down, up and down.
     ///
diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 83f04da..4344eb6 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -143,7 +143,7 @@ impl<'a, 't> TextView<'a, 't> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
+            let lines_count = lines_count.unsigned_abs() as usize;
             self.scroll = if lines_count >= self.scroll {
                 0
             } else {
-- 
2.43.0


From 2e4976926cfc9db33a868c88ec3d6083d5bfe88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 14/59] fix: don't panic on writing a text in an area without
 width

---
 src/views/text_view.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/text_view.rs b/src/views/text_view.rs
index 4344eb6..add0b7b 100644
--- a/src/views/text_view.rs
+++ b/src/views/text_view.rs
@@ -100,7 +100,7 @@ impl<'a, 't> TextView<'a, 't> {
 
     /// display the text in the area, taking the scroll into account.
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
-        let scrollbar = self.scrollbar();
+        let scrollbar = self.scrollbar().filter(|_| self.area.width > 0);
         let mut lines = self.text.lines.iter().skip(self.scroll);
         let mut width = self.area.width as usize;
         if scrollbar.is_some() {
-- 
2.43.0


From 9a10cabb6d8ab583d2e77e88d263accbdfe88c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 15/59] fix: don't keep an impossible scroll when a MadView is
 resized

---
 src/views/mad_view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index 831f848..b18fae0 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -56,6 +56,7 @@ impl MadView {
         self.area.top = area.top;
         self.area.height = area.height;
         self.area.width = area.width;
+        self.try_scroll_lines(0); // ensures the scroll is still a possible one
     }
     /// set the scroll amount.
     /// lines_count can be negative
-- 
2.43.0


From 0a8a014a4938e6630cef3525f1d581edce8393b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:10 +0000
Subject: [PATCH 16/59] fix: don't write raw tabulations in
 CropWriter::queue_char

---
 src/fit/crop_writer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index e96cb2b..9577272 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -62,6 +62,9 @@ where
         cs.queue(self.w, string)
     }
     pub fn queue_char(&mut self, cs: &CompoundStyle, c: char) -> Result<(), Error> {
+        if c == '\t' {
+            return self.queue_str(cs, self.tab_replacement);
+        }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
         if width < self.allowed {
             self.allowed -= width;
-- 
2.43.0


From 1aa6e986ae4a016c11a993270a009c9f9b32c840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 17/59] fix: remove exactly the selected chars when deleting a
 selection

---
 src/views/input_field_content.rs | 50 +++++++++-----------------------
 1 file changed, 14 insertions(+), 36 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index eab7f1a..61f4b95 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -402,43 +402,21 @@ impl InputFieldContent {
 
     pub fn del_selection(&mut self) -> bool {
         let Range { min, max } = self.selection();
-        if min.y == max.y {
-            if min.x == max.x {
-                return self.del_char_below();
-            }
-            if max.x == self.lines[min.y].chars.len() {
-                if min.x == 0 {
-                    // we remove the whole line
-                    self.lines.drain(min.y..min.y + 1);
-                    if self.lines.is_empty() {
-                        self.lines.push(Line::default());
-                    }
-                } else {
-                    self.lines[min.y].chars.drain(min.x..);
-                }
-            } else {
-                self.lines[min.y].chars.drain(min.x..max.x + 1);
-            }
+        if min == max {
+            return self.del_char_below();
+        }
+        // both positions are included in the selection. When the max is
+        // the end of a line, it's the newline which is selected
+        let mut after = if max.x < self.lines[max.y].chars.len() {
+            self.lines[max.y].chars.split_off(max.x + 1)
+        } else if max.y + 1 < self.lines.len() {
+            self.lines.remove(max.y + 1).chars
         } else {
-            let min_y = if min.x > 0 {
-                self.lines[min.y].chars.truncate(min.x);
-                min.y + 1
-            } else {
-                min.y
-            };
-            let max_y = if max.x < self.lines[max.y].chars.len() {
-                self.lines[max.y].chars.drain(0..max.x);
-                max.y - 1
-            } else {
-                max.y
-            };
-            if max_y > min_y {
-                self.lines.drain(min_y..(max_y + 1).min(self.lines.len()));
-                if self.lines.is_empty() {
-                    self.lines.push(Line::default());
-                }
-            }
-        }
+            Vec::new()
+        };
+        self.lines.drain(min.y + 1..=max.y);
+        self.lines[min.y].chars.truncate(min.x);
+        self.lines[min.y].chars.append(&mut after);
         self.set_cursor_pos(min);
         self.selection_tail = None;
         true
-- 
2.43.0


From 40dba6319790efd45ca6f42e86e78eccc53c5ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 18/59] fix: don't remove the newline before the cursor with
 del_char_below

---
 src/views/input_field_content.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index 61f4b95..cea9146 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -378,15 +378,7 @@ impl InputFieldContent {
     /// Cursor position is unchanged
     pub fn del_char_below(&mut self) -> bool {
         let line_len = self.current_line().chars.len();
-        if line_len == 0 {
-            if self.lines.len() > 1 {
-                self.lines.remove(self.pos.y);
-                self.fix_selection();
-                true
-            } else {
-                false
-            }
-        } else if self.pos.x < line_len {
+        if self.pos.x < line_len {
             self.lines[self.pos.y].chars.remove(self.pos.x);
             self.fix_selection();
             true
-- 
2.43.0


From c9d684202ec1279513da328835743549e2b854e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 19/59] fix: check the selection tail against its own line

---
 src/views/input_field_content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index cea9146..c881819 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -179,7 +179,7 @@ impl InputFieldContent {
         } else {
             self.selection_tail = Some(Pos {
                 y: sel_tail.y,
-                x: sel_tail.x.min(self.lines[self.pos.y].chars.len()),
+                x: sel_tail.x.min(self.lines[sel_tail.y].chars.len()),
             });
         }
     }
-- 
2.43.0


From 5d9ee15bdf6e846770adfeaaed080bb491b43406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 20/59] fix: don't move the cursor in its line when moving a
 line up or down

---
 src/views/input_field_content.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field_content.rs b/src/views/input_field_content.rs
index c881819..cc49623 100644
--- a/src/views/input_field_content.rs
+++ b/src/views/input_field_content.rs
@@ -427,7 +427,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line before, if possible
     pub fn move_current_line_up(&mut self) -> bool {
-        if self.pos.y > 0 && self.swap_lines(self.pos.y - 1, self.pos.y) {
+        if self.pos.y > 0 {
+            self.lines.swap(self.pos.y - 1, self.pos.y);
             self.pos.y -= 1;
             self.fix_selection();
             true
@@ -438,7 +439,8 @@ impl InputFieldContent {
 
     /// Swap the current line with the line after, if possible
     pub fn move_current_line_down(&mut self) -> bool {
-        if self.swap_lines(self.pos.y + 1, self.pos.y) {
+        if self.pos.y + 1 < self.lines.len() {
+            self.lines.swap(self.pos.y + 1, self.pos.y);
             self.pos.y += 1;
             self.fix_selection();
             true
-- 
2.43.0


From 800723654c5648d19426c2c40639b33ec5b3e4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 21/59] fix: don't select what's typed, and keep the cursor
 visible on deletions

---
 src/views/input_field.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1355f17..a3daf79 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -191,6 +191,7 @@ impl InputField {
         if self.content.has_wide_selection() {
             self.content.del_selection();
         }
+        self.content.unselect();
         self.content.insert_str(s);
         self.fix_scroll();
     }
@@ -311,27 +312,24 @@ impl InputField {
     pub fn apply_keycode_event(&mut self, code: KeyCode, shift: bool) -> bool {
         if code == KeyCode::Backspace {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_left()
+                self.content.unselect();
+                self.del_char_left()
             }
         } else if code == KeyCode::Delete {
             if self.content.has_wide_selection() {
-                self.content.del_selection();
-                true
+                self.del_selection()
             } else {
-                self.content.del_char_below()
+                self.content.unselect();
+                self.del_char_below()
             }
         } else if let KeyCode::Char(c) = code {
             if self.content.has_wide_selection() {
                 self.content.del_selection();
-                self.put_char(c);
-                self.fix_scroll();
-                true
-            } else {
-                self.put_char(c)
             }
+            self.content.unselect();
+            self.put_char(c)
         } else {
             if shift {
                 self.content.make_selection();
-- 
2.43.0


From 2a676c20d37949e18d320072898915eadc983e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 22/59] fix: replace the selection when a new line is typed

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a3daf79..fedfb9a 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -293,7 +293,7 @@ impl InputField {
         }
         let key = key.into();
         if self.new_line_keys.contains(&key) {
-            self.insert_new_line();
+            self.replace_selection("\n");
             return true;
         }
         use crate::crossterm::event::KeyModifiers as Mod;
-- 
2.43.0


From 6aa0d0f709b4785c04dca0f7e30face9eeb7725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 23/59] fix: apply the new line keys in InputField::apply_event

---
 src/views/input_field.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index fedfb9a..275ae97 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -430,6 +430,9 @@ impl InputField {
     pub fn apply_event(&mut self, event: &Event, is_double_click: bool) -> bool {
         match event {
             Event::Mouse(mouse_event) => self.apply_mouse_event(*mouse_event, is_double_click),
+            Event::Key(key) if self.focused && self.new_line_keys.contains(&(*key).into()) => {
+                self.apply_key_event(*key)
+            }
             Event::Key(KeyEvent {
                 code, modifiers, ..
             }) if self.focused => {
-- 
2.43.0


From a7642cb431ff287b62159ed86d96f4d19af7ff91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 24/59] fix: don't hide the cursor of an input field when it
 goes down

---
 src/views/input_field.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 275ae97..d7afd39 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -500,8 +500,8 @@ impl InputField {
                     }
                 } else if pos.y >= self.scroll.y + height {
                     self.scroll.y = pos.y - height + 1;
-                    if pos.y + 1 < lines.len() {
-                        self.scroll.y -= 1;
+                    if pos.y + 1 < lines.len() && height > 4 {
+                        self.scroll.y += 1;
                     }
                 }
             }
-- 
2.43.0


From 64eb9f3e223adb336d93d13293080a54b23ec947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:11 +0000
Subject: [PATCH 25/59] fix: keep the cursor visible in very narrow input
 fields, don't panic without width

---
 src/views/input_field.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index d7afd39..686eeae 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -481,7 +481,7 @@ impl InputField {
         let lines = &self.content.lines();
         let has_y_scroll = lines.len() > height;
         if has_y_scroll {
-            width -= 1;
+            width = width.saturating_sub(1);
         } else {
             self.scroll.y = 0;
         }
@@ -515,16 +515,16 @@ impl InputField {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
+                let wpx = line.char_idx_to_col(pos.x);
                 if width < 4 {
-                    if pos.x < 2 {
+                    if wpx < 2 {
                         self.scroll.x = 0;
-                    } else if pos.x < self.scroll.x + 1 {
-                        self.scroll.x = pos.x - 1;
-                    } else if pos.x > self.scroll.x + width {
-                        self.scroll.x = pos.x + 1 - width;
+                    } else if wpx < self.scroll.x + 1 {
+                        self.scroll.x = wpx - 1;
+                    } else if wpx >= self.scroll.x + width {
+                        self.scroll.x = wpx + 1 - width;
                     }
                 } else {
-                    let wpx = line.char_idx_to_col(pos.x);
                     if wpx < self.scroll.x + 2 {
                         if wpx < 2 {
                             self.scroll.x = 0;
@@ -567,7 +567,7 @@ impl InputField {
             .area
             .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
         if scrollbar.is_some() {
-            width -= 1;
+            width = width.saturating_sub(1);
         }
 
         queue!(w, SetBackgroundColor(Color::Reset))?;
-- 
2.43.0


From b5ca08fe1d12108f85f466880c01ef70ccd7bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 26/59] fix: right scrollbar for an input field of more than
 65535 lines

---
 src/views/input_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 686eeae..7c7c365 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -565,7 +565,7 @@ impl InputField {
         let mut terminal_cursor_pos = None;
         let scrollbar = self
             .area
-            .scrollbar(self.scroll.y as u16, self.content.line_count() as u16);
+            .scrollbar(self.scroll.y, self.content.line_count());
         if scrollbar.is_some() {
             width = width.saturating_sub(1);
         }
-- 
2.43.0


From 2f870bf8c905b4070f0fa86003234af80cd561d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 27/59] fix: scroll input fields in password mode according to
 what's displayed

---
 src/views/input_field.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 7c7c365..c105892 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -508,14 +508,15 @@ impl InputField {
         }
 
         let line = self.content.current_line();
-        let line_width = line.width();
+        // in password mode, all chars are displayed as stars
+        let line_width = if self.password_mode { line.chars.len() } else { line.width() };
         if line_width < width {
             self.scroll.x = 0;
         } else {
             if self.focused {
                 // we don't show ellipsis if the width is below 4
                 // so we need less margin
-                let wpx = line.char_idx_to_col(pos.x);
+                let wpx = if self.password_mode { pos.x } else { line.char_idx_to_col(pos.x) };
                 if width < 4 {
                     if wpx < 2 {
                         self.scroll.x = 0;
-- 
2.43.0


From 7f10e43f0851042ef85c62598e458a3433c9de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 28/59] fix: display tabulations in input fields with the width
 they're counted for

---
 src/views/input_field.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index c105892..a16dee6 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -632,10 +632,16 @@ impl InputField {
                         }
                     }
                     if self.focused && selection.contains(i, y) {
-                        self.cursor_style.queue(w, c)?;
+                        if c == '\t' {
+                            self.cursor_style.queue(w, TAB_REPLACEMENT)?;
+                        } else {
+                            self.cursor_style.queue(w, c)?;
+                        }
                         // set terminal cursor position
                         terminal_cursor_pos =
                             Some((self.area.left + displayed_width as u16, self.area.top + j));
+                    } else if c == '\t' {
+                        normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
                         normal_style.queue(w, c)?;
                     }
-- 
2.43.0


From 91de0f152381998abbde264a9c82d863a4a38a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 29/59] fix: return the cursor position when an input field is
 scrolled or has a selection

---
 src/views/input_field.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index a16dee6..5ca67fc 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -599,15 +599,18 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
+                let mut left = self.area.left; // where the chars are rendered
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
                 if width_to_skip > 0 && width > 4 {
                     normal_style.queue(w, fit::ELLIPSIS)?;
                     width_to_skip += 1;
+                    left += 1;
                     width -= 1;
                 }
                 for (i, c) in chars.iter().enumerate() {
                     let c = if self.password_mode { '*' } else { *c };
+                    let is_cursor = y == pos.y && i == pos.x;
                     let char_width = InputFieldContent::char_width(c);
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
@@ -619,11 +622,11 @@ impl InputField {
                         if !is_last || displayed_width + char_width > width {
                             if self.focused && selection.contains(i, y) {
                                 self.cursor_style.queue(w, fit::ELLIPSIS)?;
-                                // set terminal cursor position
-                                terminal_cursor_pos = Some((
-                                    self.area.left + displayed_width as u16,
-                                    self.area.top + j,
-                                ));
+                                if is_cursor {
+                                    // set terminal cursor position
+                                    terminal_cursor_pos =
+                                        Some((left + displayed_width as u16, self.area.top + j));
+                                }
                             } else {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
@@ -637,9 +640,11 @@ impl InputField {
                         } else {
                             self.cursor_style.queue(w, c)?;
                         }
-                        // set terminal cursor position
-                        terminal_cursor_pos =
-                            Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        if is_cursor {
+                            // set terminal cursor position
+                            terminal_cursor_pos =
+                                Some((left + displayed_width as u16, self.area.top + j));
+                        }
                     } else if c == '\t' {
                         normal_style.queue(w, TAB_REPLACEMENT)?;
                     } else {
@@ -654,7 +659,7 @@ impl InputField {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-                        Some((self.area.left + displayed_width as u16, self.area.top + j));
+                        Some((left + displayed_width as u16, self.area.top + j));
                     displayed_width += 1;
                 }
                 while displayed_width < width {
-- 
2.43.0


From 66892c52ba8f49daf1e9f29a9409013f12d75c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 30/59] fix: don't panic on scrolling a ListView which fits its
 area, or by a very big number of lines

---
 src/views/list_view.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 31a109d..a37c446 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -360,22 +360,23 @@ impl<'t, T> ListView<'t, T> {
     /// lines_count can be negative
     pub fn try_scroll_lines(&mut self, lines_count: i32) {
         if lines_count < 0 {
-            let lines_count = -lines_count as usize;
-            self.scroll = if lines_count >= self.scroll {
-                0
+            let lines_count = lines_count.unsigned_abs() as usize;
+            self.scroll = self.scroll.saturating_sub(lines_count);
+        } else {
+            let body_height = self.tbody_height() as usize;
+            let max_scroll = if self.displayed_rows_count > body_height {
+                self.displayed_rows_count - body_height + 1
             } else {
-                self.scroll - lines_count
+                0
             };
-        } else {
-            self.scroll = (self.scroll + lines_count as usize)
-                .min(self.displayed_rows_count - self.tbody_height() as usize + 1);
+            self.scroll = (self.scroll + lines_count as usize).min(max_scroll);
         }
         self.make_selection_visible();
     }
     /// set the scroll amount.
     /// pages_count can be negative
     pub fn try_scroll_pages(&mut self, pages_count: i32) {
-        self.try_scroll_lines(pages_count * self.tbody_height() as i32)
+        self.try_scroll_lines(pages_count.saturating_mul(i32::from(self.tbody_height())))
     }
     /// try to select the next visible line
     pub fn try_select_next(&mut self, up: bool) {
-- 
2.43.0


From aee3903ff99b97ee42bb948c879f6a6154d8d214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 31/59] fix: right thumb position for the scrollbar of a
 ListView

---
 src/views/list_view.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index a37c446..1b66291 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -163,10 +163,10 @@ impl<'t, T> ListView<'t, T> {
     #[inline(always)]
     pub fn scrollbar(&self) -> Option<(u16, u16)> {
         compute_scrollbar(
-            self.scroll as u16,
-            self.displayed_rows_count as u16,
+            self.scroll,
+            self.displayed_rows_count,
             self.tbody_height(),
-            self.area.top,
+            self.area.top + 2, // the rows are below the title and separator lines
         )
     }
     pub fn add_row(&mut self, data: T) {
@@ -326,7 +326,7 @@ impl<'t, T> ListView<'t, T> {
             }
             if let Some((sctop, scbottom)) = scrollbar {
                 queue!(w, MoveTo(sx, self.area.top + y))?;
-                let y = y - 2;
+                let y = self.area.top + y;
                 if sctop <= y && y <= scbottom {
                     self.skin.scrollbar.thumb.queue(w)?;
                 } else {
-- 
2.43.0


From 25fa18e648dbe6d0c88bd329a2b0f23b8807be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:46 +0000
Subject: [PATCH 32/59] fix: don't draw a ListView out of its area

---
 src/views/list_view.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 1b66291..745bd94 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -8,10 +8,6 @@ use {
                 Color,
                 SetBackgroundColor,
             },
-            terminal::{
-                Clear,
-                ClearType,
-            },
         },
         errors::Result,
         gray,
@@ -20,6 +16,7 @@ use {
         CompoundStyle,
         MadSkin,
         Spacing,
+        SPACE_FILLING,
     },
     std::{
         cmp::Ordering,
@@ -246,7 +243,7 @@ impl<'t, T> ListView<'t, T> {
     where
         W: std::io::Write,
     {
-        let sx = self.area.left + self.area.width;
+        let sx = (self.area.left + self.area.width).max(1) - 1;
         let vbar = self.skin.table.compound_style.style_char('│');
         let tee = self.skin.table.compound_style.style_char('┬');
         let cross = self.skin.table.compound_style.style_char('┼');
@@ -296,7 +293,7 @@ impl<'t, T> ListView<'t, T> {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
             loop {
                 if row_idx == self.rows.len() {
-                    queue!(w, Clear(ClearType::UntilNewLine))?;
+                    SPACE_FILLING.queue_unstyled(w, self.area.width.into())?;
                     break;
                 }
                 if self.rows[row_idx].displayed {
-- 
2.43.0


From e4f09b8ac81e5f73c13e1557d2e3aba763dfcdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 33/59] fix: right scroll in a filtered ListView

---
 src/views/list_view.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 745bd94..6db7181 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -64,7 +64,7 @@ pub struct ListView<'t, T> {
     columns: Vec<ListViewColumn<'t, T>>,
     rows: Vec<Row<T>>,
     pub area: Area,
-    scroll: usize,
+    scroll: usize, // number of displayed rows (i.e. not filtered out) above the area
     pub skin: &'t MadSkin,
     filter: Option<Box<dyn Fn(&T) -> bool>>, // a function determining if the row must be displayed
     displayed_rows_count: usize,
@@ -287,7 +287,7 @@ impl<'t, T> ListView<'t, T> {
             }
         }
         // rows, maybe scrolled
-        let mut row_idx = self.scroll;
+        let mut row_idx = self.first_visible_row();
         let scrollbar = self.scrollbar();
         for y in 2..self.area.height {
             queue!(w, MoveTo(self.area.left, self.area.top + y))?;
@@ -333,6 +333,16 @@ impl<'t, T> ListView<'t, T> {
         }
         Ok(())
     }
+    /// index, in all rows, of the first row displayed in the area
+    /// (number of rows if there's none)
+    fn first_visible_row(&self) -> usize {
+        self.rows
+            .iter()
+            .enumerate()
+            .filter(|(_, row)| row.displayed)
+            .nth(self.scroll)
+            .map_or(self.rows.len(), |(idx, _)| idx)
+    }
     /// display the whole list in its area
     pub fn write(&self) -> Result<()> {
         let mut stdout = stdout();
@@ -381,8 +391,9 @@ impl<'t, T> ListView<'t, T> {
             return;
         }
         if self.displayed_rows_count == 1 || self.selection.is_none() {
+            let first = self.first_visible_row();
             for i in 0..self.rows.len() {
-                let i = (i + self.scroll) % self.rows.len();
+                let i = (i + first) % self.rows.len();
                 if self.rows[i].displayed {
                     self.selection = Some(i);
                     self.make_selection_visible();
@@ -432,6 +443,11 @@ impl<'t, T> ListView<'t, T> {
             return; // there's no scroll
         }
         if let Some(sel) = self.selection {
+            if !self.rows[sel].displayed {
+                return;
+            }
+            // the scroll is a number of displayed rows
+            let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
             if sel <= self.scroll {
                 self.scroll = if sel > 2 { sel - 2 } else { 0 };
             } else if sel + 1 >= self.scroll + tbody_height {
-- 
2.43.0


From 2160b1b0a25a25e2b264905b61e6e28353f19e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:06 +0000
Subject: [PATCH 34/59] fix: keep the selection on its row when a row is added
 to a sorted ListView

---
 src/views/list_view.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 6db7181..4303560 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -180,6 +180,13 @@ impl<'t, T> ListView<'t, T> {
         }
         self.rows.push(Row { data, displayed });
         if let Some(row_order) = &self.row_order {
+            if let Some(sel) = self.selection {
+                // the selected row may move
+                let rank = |row: &Row<T>| row_order(&row.data, &self.rows[sel].data);
+                let before = self.rows[..sel].iter().filter(|row| rank(row).is_le()).count();
+                let after = self.rows[sel + 1..].iter().filter(|row| rank(row).is_lt()).count();
+                self.selection = Some(before + after);
+            }
             self.rows.sort_by(|a, b| row_order(&a.data, &b.data));
         }
     }
-- 
2.43.0


From ec7366e91762feba2e34584a0b48e4f23b24f3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:24 +0000
Subject: [PATCH 35/59] fix: make the selection of a ListView visible, and
 don't panic, whatever its height

---
 src/views/list_view.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/views/list_view.rs b/src/views/list_view.rs
index 4303560..bfac76e 100644
--- a/src/views/list_view.rs
+++ b/src/views/list_view.rs
@@ -455,10 +455,13 @@ impl<'t, T> ListView<'t, T> {
             }
             // the scroll is a number of displayed rows
             let sel = self.rows[..sel].iter().filter(|row| row.displayed).count();
+            // number of rows we'd like to see above or below the selection
+            let margin_above = tbody_height.saturating_sub(1).min(2);
+            let margin_below = tbody_height.saturating_sub(1).min(1);
             if sel <= self.scroll {
-                self.scroll = if sel > 2 { sel - 2 } else { 0 };
+                self.scroll = sel.saturating_sub(margin_above);
             } else if sel + 1 >= self.scroll + tbody_height {
-                self.scroll = sel - tbody_height + 2;
+                self.scroll = (sel + 1 + margin_below).saturating_sub(tbody_height);
             }
         }
     }
-- 
2.43.0


From 120fd8a78bf0be8e0024adbfd144b573f9e8fcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 36/59] fix: don't read dark colors as normal ones

---
 src/parse/parse_color.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 0a9307c..5786e17 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -80,21 +80,22 @@ pub fn parse_color(s: &str) -> Result<Color, ParseColorError> {
             };
             rgb(r, g, b)
         }
-        "black"i => Color::AnsiValue(16),
-        "blue"i => Color::Blue,
-        "cyan"i => Color::Cyan,
-        "darkblue"i => Color::DarkBlue,
-        "darkcyan"i => Color::DarkCyan,
-        "darkgreen"i => Color::DarkGreen,
-        "darkmagenta"i => Color::DarkMagenta,
-        "darkred"i => Color::DarkRed,
-        "green"i => Color::Green,
-        "grey"i => Color::Grey,
-        "magenta"i => Color::Magenta,
-        "red"i => Color::Red,
-        "yellow"i => Color::Yellow,
-        "darkyellow"i => Color::DarkYellow,
-        "white"i => Color::AnsiValue(231),
+        "^black$"i => Color::AnsiValue(16),
+        "^blue$"i => Color::Blue,
+        "^cyan$"i => Color::Cyan,
+        "^darkblue$"i => Color::DarkBlue,
+        "^darkcyan$"i => Color::DarkCyan,
+        "^darkgreen$"i => Color::DarkGreen,
+        "^darkgrey$"i => Color::DarkGrey,
+        "^darkmagenta$"i => Color::DarkMagenta,
+        "^darkred$"i => Color::DarkRed,
+        "^green$"i => Color::Green,
+        "^grey$"i => Color::Grey,
+        "^magenta$"i => Color::Magenta,
+        "^red$"i => Color::Red,
+        "^yellow$"i => Color::Yellow,
+        "^darkyellow$"i => Color::DarkYellow,
+        "^white$"i => Color::AnsiValue(231),
     )
     .ok_or(ParseColorError::Unrecognized)
 }
-- 
2.43.0


From c3863337d90f048a6be2ba5105b5dc594f9a3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 37/59] fix: write black and white so that they're read as the
 same colors

---
 src/parse/parse_color.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 5786e17..15cffd7 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -20,7 +20,8 @@ pub enum ParseColorError {
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
         Color::Reset => Ok(()),
-        Color::Black => write!(f, "Black"),
+        // "black" and "white" are read as other colors, less dependent on the theme
+        Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
         Color::Red => write!(f, "Red"),
         Color::DarkRed => write!(f, "DarkRed"),
@@ -34,7 +35,7 @@ pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
         Color::DarkMagenta => write!(f, "DarkMagenta"),
         Color::Cyan => write!(f, "Cyan"),
         Color::DarkCyan => write!(f, "DarkCyan"),
-        Color::White => write!(f, "White"),
+        Color::White => write!(f, "ansi(15)"),
         Color::Grey => write!(f, "Grey"),
         Color::Rgb { r, g, b } => write!(f, "rgb({r}, {g}, {b})"),
         Color::AnsiValue(code) => write!(f, "ansi({code})"),
-- 
2.43.0


From ada99b19833307c918f5a6fba9ba033e15a8337b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 38/59] fix: separate the tokens in write_style_tokens

---
 src/parse/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 4892034..108d6f1 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -88,10 +88,10 @@ pub fn write_style_tokens<W: io::Write>(w: &mut W, tokens: &[StyleToken]) -> io:
     let mut first = true;
     for token in tokens {
         if first {
-            write!(w, " {token}")?;
+            write!(w, "{token}")?;
             first = false;
         } else {
-            write!(w, "{token}")?;
+            write!(w, " {token}")?;
         }
     }
     Ok(())
-- 
2.43.0


From ffa83396ed0d1445f627f8b1802ecaf3cc0f3db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:25 +0000
Subject: [PATCH 39/59] fix: parse the strikeout attribute, as documented

---
 src/parse/parse_attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index 98104da..c657b47 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -44,7 +44,7 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
     if regex_is_match!("bold"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out"i, s) {
+    } else if regex_is_match!("crossed[_-]?out|strike[_-]?out"i, s) {
         Ok(Attribute::CrossedOut)
     } else if regex_is_match!("dim"i, s) {
         Ok(Attribute::Dim)
-- 
2.43.0


From 0fa7200e70aaa50eb90a5d301dcc34c9eb63f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 40/59] fix: read digits as chars in the style of a char

---
 src/parse/parse_styled_char.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/parse/parse_styled_char.rs b/src/parse/parse_styled_char.rs
index 0ed3155..820c831 100644
--- a/src/parse/parse_styled_char.rs
+++ b/src/parse/parse_styled_char.rs
@@ -16,6 +16,13 @@ pub fn parse_styled_char(
             StyleToken::Char(c) => Some(*c),
             _ => None,
         })
+        .or_else(|| {
+            // a digit is read as a dimension, which isn't of use for a styled char
+            tokens.iter().find_map(|token| match token {
+                StyleToken::Dimension(n) => char::from_digit((*n).into(), 10),
+                _ => None,
+            })
+        })
         .unwrap_or(default_nude_char);
     Ok(StyledChar::new(style, nude_char))
 }
-- 
2.43.0


From 1b48e5f278ee32f24904d33e9d5915df5f1c94a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 41/59] fix: don't write a very big margin as a null one

---
 src/parse/parse_line_style.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parse/parse_line_style.rs b/src/parse/parse_line_style.rs
index 3ad95cb..b4d1bd5 100644
--- a/src/parse/parse_line_style.rs
+++ b/src/parse/parse_line_style.rs
@@ -46,8 +46,8 @@ impl PushStyleTokens for LineStyle {
         self.compound_style.push_style_tokens(tokens);
         tokens.push(StyleToken::Align(self.align));
         if self.left_margin > 0 || self.right_margin > 0 {
-            tokens.push(StyleToken::Dimension(self.left_margin.min(65536) as u16));
-            tokens.push(StyleToken::Dimension(self.right_margin.min(65536) as u16));
+            tokens.push(StyleToken::Dimension(self.left_margin.min(u16::MAX as usize) as u16));
+            tokens.push(StyleToken::Dimension(self.right_margin.min(u16::MAX as usize) as u16));
         }
     }
 }
-- 
2.43.0


From 87c176f775165c2ebe88b78ad48d2e918cdbd2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 42/59] fix: don't simplify the serialized scrollbar when it
 loses part of its style

---
 src/serde/serde_scrollbar_style.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/serde/serde_scrollbar_style.rs b/src/serde/serde_scrollbar_style.rs
index cb2a5c9..27e0b60 100644
--- a/src/serde/serde_scrollbar_style.rs
+++ b/src/serde/serde_scrollbar_style.rs
@@ -30,7 +30,11 @@ impl From<&ScrollBarStyle> for ScrollBarStyleDef {
     fn from(sc: &ScrollBarStyle) -> Self {
         let simple = sc.track.nude_char() == sc.thumb.nude_char()
             && sc.track.get_bg().is_none()
-            && sc.thumb.get_bg().is_none();
+            && sc.thumb.get_bg().is_none()
+            && sc.track.get_fg().is_some()
+            && sc.thumb.get_fg().is_some()
+            && sc.track.compound_style().attrs().is_empty()
+            && sc.thumb.compound_style().attrs().is_empty();
         if simple {
             Self::Simple(StyledChar::new(
                 CompoundStyle::new(sc.thumb.get_fg(), sc.track.get_fg(), Default::default()),
-- 
2.43.0


From 63f14da9c812974fd1f29abfd90503d94da4271a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 43/59] fix: blend the background, not twice the foreground

---
 src/compound_style.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index b5126c1..1d9be4d 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -86,7 +86,7 @@ impl CompoundStyle {
             let src: coolor::Color = (*fg).into();
             *fg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-        if let Some(bg) = self.object_style.foreground_color.as_mut() {
+        if let Some(bg) = self.object_style.background_color.as_mut() {
             let src: coolor::Color = (*bg).into();
             *bg = coolor::Color::blend(src, 1.0 - weight, dest, weight).into();
         }
-- 
2.43.0


From 35cc20ca82aa1853721e265887d89f8ab690a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:40 +0000
Subject: [PATCH 44/59] fix: apply blending to what's displayed for a styled
 char

---
 src/styled_char.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/styled_char.rs b/src/styled_char.rs
index 67a0729..6c374a0 100644
--- a/src/styled_char.rs
+++ b/src/styled_char.rs
@@ -100,6 +100,7 @@ impl StyledChar {
     }
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, color: C, weight: f32) {
         self.compound_style.blend_with(color, weight);
+        self.styled_char = self.compound_style.apply_to(self.nude_char);
     }
 }
 
-- 
2.43.0


From 51547875747614044f6f8a18aa6c83d3df6b241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 45/59] fix: let the colors unchanged on blending with a null
 weight, as documented

---
 src/compound_style.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 1d9be4d..9c2eafc 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -79,8 +79,13 @@ impl CompoundStyle {
     /// with a weight in `[0..1]`.
     ///
     /// The `dest` color can be for example a [crossterm] color or a [coolor] one.
+    /// A `weight` of 0 lets the style unchanged.
     pub fn blend_with<C: Into<coolor::Color>>(&mut self, dest: C, weight: f32) {
         debug_assert!(weight >= 0.0 && weight <= 1.0);
+        if weight == 0.0 {
+            // blending would convert the colors, which would not be exactly the same
+            return;
+        }
         let dest: coolor::Color = dest.into();
         if let Some(fg) = self.object_style.foreground_color.as_mut() {
             let src: coolor::Color = (*fg).into();
-- 
2.43.0


From 77fe5e9d9d6689ee9c7e366a008ab2cec38312d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:41 +0000
Subject: [PATCH 46/59] fix: don't loop forever when a question is asked at the
 end of the input

---
 src/ask.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ask.rs b/src/ask.rs
index 52728bd..fe96481 100644
--- a/src/ask.rs
+++ b/src/ask.rs
@@ -82,7 +82,7 @@ impl Question {
         }
         loop {
             let mut input = String::new();
-            io::stdin().read_line(&mut input)?;
+            let eof = io::stdin().read_line(&mut input)? == 0;
             input.truncate(input.trim_end().len());
             if input.is_empty() {
                 if let Some(da) = &self.default_answer {
@@ -94,6 +94,10 @@ impl Question {
                     return Ok(input);
                 }
             }
+            if eof {
+                // there won't be any answer
+                return Err(io::ErrorKind::UnexpectedEof.into());
+            }
             println!("answer {:?} not understood", input);
         }
     }
-- 
2.43.0


From 425e047484ef88e17ebe523b2d973ce944f79efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:49 +0000
Subject: [PATCH 47/59] fix: don't forget the uppercase chars when displaying
 an escape sequence

---
 src/events/escape_sequence.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/escape_sequence.rs b/src/events/escape_sequence.rs
index 746b865..241c0c9 100644
--- a/src/events/escape_sequence.rs
+++ b/src/events/escape_sequence.rs
@@ -26,7 +26,7 @@ impl fmt::Display for EscapeSequence {
         for key in &self.keys {
             if let KeyEvent {
                 code: KeyCode::Char(c),
-                modifiers: KeyModifiers::NONE,
+                modifiers: KeyModifiers::NONE | KeyModifiers::SHIFT,
                 ..
             } = key
             {
-- 
2.43.0


From 99243e0004aa968ea171fbc3938428159bafcf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 48/59] fix: let a cropping writer write a char taking exactly
 the columns left

---
 src/fit/crop_writer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index 9577272..cd6f87d 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -66,7 +66,7 @@ where
             return self.queue_str(cs, self.tab_replacement);
         }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed && !self.is_full() {
             self.allowed -= width;
             cs.queue(self.w, c)?;
         }
@@ -77,7 +77,7 @@ where
             return self.queue_unstyled_str(self.tab_replacement);
         }
         let width = UnicodeWidthChar::width(c).unwrap_or(0);
-        if width < self.allowed {
+        if width <= self.allowed && !self.is_full() {
             self.allowed -= width;
             self.w.queue(Print(c))?;
         }
-- 
2.43.0


From 4b5f549cbfbe015effdbb2ce94d9cfd1caf75602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:00 +0000
Subject: [PATCH 49/59] fix: don't show the cursor of an input field after an
 ellipsis hiding its position

---
 src/views/input_field.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 5ca67fc..87b3c23 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -599,6 +599,7 @@ impl InputField {
                 let mut width_to_skip = self.scroll.x;
                 let mut skipped_width = 0;
                 let mut displayed_width = 0;
+                let mut cropped = false; // whether the end of the line is hidden
                 let mut left = self.area.left; // where the chars are rendered
                 let mut width = width; // available width for rendering chars
                                        // we don't show ellipsis if the width is 4 or less
@@ -631,6 +632,7 @@ impl InputField {
                                 normal_style.queue(w, fit::ELLIPSIS)?;
                             }
                             displayed_width += 1;
+                            cropped = true;
                             break;
                         }
                     }
@@ -655,7 +657,7 @@ impl InputField {
                         break;
                     }
                 }
-                if displayed_width < width && cursor_at_end {
+                if displayed_width < width && cursor_at_end && !cropped {
                     self.cursor_style.queue(w, ' ')?;
                     // set terminal cursor position
                     terminal_cursor_pos =
-- 
2.43.0


From 0b138734702a2935d77f0aa5f82fcecdc6253d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:07 +0000
Subject: [PATCH 50/59] fix: tell that the only column of a table is reduced

---
 src/fit/tbl_fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit/tbl_fit.rs b/src/fit/tbl_fit.rs
index 8bb386f..51b2690 100644
--- a/src/fit/tbl_fit.rs
+++ b/src/fit/tbl_fit.rs
@@ -91,7 +91,7 @@ impl TblFit {
         }
         if self.cols.len() == 1 {
             return TblFitResult {
-                reduced: false,
+                reduced: true,
                 col_widths: vec![self.available_sum_width],
             };
         }
-- 
2.43.0


From 345120532b9ba66a921943ced9958d5e1cdef1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 51/59] fix: style tokens containing a keyword accepted as this
 keyword

---
 src/parse/mod.rs             |  2 +-
 src/parse/parse_align.rs     |  6 +++---
 src/parse/parse_attribute.rs | 20 ++++++++++----------
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/parse/mod.rs b/src/parse/mod.rs
index 108d6f1..57b0caf 100644
--- a/src/parse/mod.rs
+++ b/src/parse/mod.rs
@@ -111,7 +111,7 @@ pub fn style_tokens_to_string(tokens: &[StyleToken]) -> String {
 }
 
 pub fn parse_style_token(s: &str) -> Result<StyleToken, ParseStyleTokenError> {
-    if regex_is_match!("none"i, s) {
+    if regex_is_match!("^none$"i, s) {
         return Ok(StyleToken::None);
     }
     if let Ok(number) = s.parse() {
diff --git a/src/parse/parse_align.rs b/src/parse/parse_align.rs
index 6ea3db9..07cda7d 100644
--- a/src/parse/parse_align.rs
+++ b/src/parse/parse_align.rs
@@ -21,11 +21,11 @@ pub fn write_align(f: &mut fmt::Formatter<'_>, a: Alignment) -> fmt::Result {
 
 /// Read a Minimad Alignment from a string.
 pub fn parse_align(s: &str) -> Result<Alignment, ParseAlignError> {
-    if regex_is_match!("left"i, s) {
+    if regex_is_match!("^left$"i, s) {
         Ok(Alignment::Left)
-    } else if regex_is_match!("center"i, s) {
+    } else if regex_is_match!("^center$"i, s) {
         Ok(Alignment::Center)
-    } else if regex_is_match!("right"i, s) {
+    } else if regex_is_match!("^right$"i, s) {
         Ok(Alignment::Right)
     } else {
         Err(ParseAlignError::Unrecognized)
diff --git a/src/parse/parse_attribute.rs b/src/parse/parse_attribute.rs
index c657b47..ebec96e 100644
--- a/src/parse/parse_attribute.rs
+++ b/src/parse/parse_attribute.rs
@@ -42,25 +42,25 @@ pub fn write_attribute(f: &mut fmt::Formatter<'_>, a: Attribute) -> fmt::Result
 
 /// Read a Minimad Attributement from a string.
 pub fn parse_attribute(s: &str) -> Result<Attribute, ParseAttributeError> {
-    if regex_is_match!("bold"i, s) {
+    if regex_is_match!("^bold$"i, s) {
         Ok(Attribute::Bold)
-    } else if regex_is_match!("crossed[_-]?out|strike[_-]?out"i, s) {
+    } else if regex_is_match!("^(crossed|strike)[_-]?out$"i, s) {
         Ok(Attribute::CrossedOut)
-    } else if regex_is_match!("dim"i, s) {
+    } else if regex_is_match!("^dim$"i, s) {
         Ok(Attribute::Dim)
-    } else if regex_is_match!("italic"i, s) {
+    } else if regex_is_match!("^italic$"i, s) {
         Ok(Attribute::Italic)
-    } else if regex_is_match!("under[_-]?lined"i, s) {
+    } else if regex_is_match!("^under[_-]?lined$"i, s) {
         Ok(Attribute::Underlined)
-    } else if regex_is_match!("over[_-]?lined"i, s) {
+    } else if regex_is_match!("^over[_-]?lined$"i, s) {
         Ok(Attribute::OverLined)
-    } else if regex_is_match!("reverse"i, s) {
+    } else if regex_is_match!("^reverse$"i, s) {
         Ok(Attribute::Reverse)
-    } else if regex_is_match!("encircled"i, s) {
+    } else if regex_is_match!("^encircled$"i, s) {
         Ok(Attribute::Encircled)
-    } else if regex_is_match!("slow[_-]?blink"i, s) {
+    } else if regex_is_match!("^slow[_-]?blink$"i, s) {
         Ok(Attribute::SlowBlink)
-    } else if regex_is_match!("rapid[_-]?blink"i, s) {
+    } else if regex_is_match!("^rapid[_-]?blink$"i, s) {
         Ok(Attribute::RapidBlink)
     } else {
         Err(ParseAttributeError::Unrecognized)
-- 
2.43.0


From 31062c0b23f80cf356ace626d17b65cfd078791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 52/59] fix: default color written as nothing, so that the
 background was read as the foreground

---
 src/parse/parse_color.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parse/parse_color.rs b/src/parse/parse_color.rs
index 15cffd7..b8eb288 100644
--- a/src/parse/parse_color.rs
+++ b/src/parse/parse_color.rs
@@ -19,7 +19,8 @@ pub enum ParseColorError {
 
 pub fn write_color(f: &mut fmt::Formatter<'_>, c: Color) -> fmt::Result {
     match c {
-        Color::Reset => Ok(()),
+        // not readable, and there must be a token so that a following color stays the background
+        Color::Reset => write!(f, "none"),
         // "black" and "white" are read as other colors, less dependent on the theme
         Color::Black => write!(f, "ansi(0)"),
         Color::DarkGrey => write!(f, "DarkGrey"),
-- 
2.43.0


From b97659590eea61cbb733c6bf057b3e6ce61b5ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 53/59] fix: blink attributes lost when a style is written

---
 src/compound_style.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compound_style.rs b/src/compound_style.rs
index 9c2eafc..6b82f11 100644
--- a/src/compound_style.rs
+++ b/src/compound_style.rs
@@ -32,6 +32,8 @@ pub static ATTRIBUTES: &[Attribute] = &[
     Attribute::Dim,
     Attribute::Italic,
     Attribute::Underlined,
+    Attribute::SlowBlink,
+    Attribute::RapidBlink,
     Attribute::Reverse,
     Attribute::CrossedOut,
     Attribute::Encircled,
-- 
2.43.0


From c692869e783927bea2ddfbc787cc34b859286a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 54/59] fix: a wide char partially hidden by the scroll of an
 input field shifted its line

---
 src/views/input_field.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 87b3c23..1efd930 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -616,8 +616,17 @@ impl InputField {
                     if skipped_width < width_to_skip {
                         // char hidden by scroll on x
                         skipped_width += char_width;
+                        if skipped_width > width_to_skip {
+                            // only a part of the char is hidden by the scroll
+                            let len = (skipped_width - width_to_skip).min(width);
+                            SPACE_FILLING.queue_styled(w, normal_style, len)?;
+                            displayed_width += len;
+                        }
                         continue;
                     }
+                    if displayed_width >= width {
+                        break;
+                    }
                     if displayed_width + char_width >= width {
                         let is_last = i == chars.len() - 1;
                         if !is_last || displayed_width + char_width > width {
-- 
2.43.0


From 3407f01fbca64e40c36820354195a21dcb05fed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:05 +0000
Subject: [PATCH 55/59] fix: clicks in a scrolled password field counted the
 hidden chars' widths

---
 src/views/input_field.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/views/input_field.rs b/src/views/input_field.rs
index 1efd930..0bf8a58 100644
--- a/src/views/input_field.rs
+++ b/src/views/input_field.rs
@@ -350,17 +350,27 @@ impl InputField {
         }
     }
 
+    /// Return the position, in the content, of the char displayed on the
+    /// given position of the screen, which must be in the area
+    fn pos_at(&self, column: u16, row: u16) -> Pos {
+        let y = ((row - self.area.top) as usize + self.scroll.y)
+            .min(self.content.line_count() - 1);
+        let line = &self.content.lines()[y];
+        let col = (column - self.area.left) as usize + self.scroll.x;
+        let x = if self.password_mode {
+            // all chars are displayed as stars
+            col.min(line.chars.len())
+        } else {
+            line.col_to_char_idx(col).unwrap_or(line.chars.len())
+        };
+        Pos { x, y }
+    }
+
     /// Apply a simple left click event
     pub fn apply_click_event(&mut self, x: u16, y: u16) -> bool {
         if self.area.contains(x, y) {
             if self.focused {
-                let y = ((y - self.area.top) as usize + self.scroll.y)
-                    .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((x - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
-                self.content.set_cursor_pos(Pos { x, y });
+                self.content.set_cursor_pos(self.pos_at(x, y));
             } else {
                 self.focused = true;
             }
@@ -380,12 +390,7 @@ impl InputField {
         } = mouse_event;
         if self.area.contains(column, row) {
             if self.focused {
-                let y = ((row - self.area.top) as usize + self.scroll.y)
-                    .min(self.content.line_count() - 1);
-                let line = &self.content.lines()[y];
-                let x = line
-                    .col_to_char_idx((column - self.area.left) as usize + self.scroll.x)
-                    .unwrap_or(line.chars.len());
+                let Pos { x, y } = self.pos_at(column, row);
                 // We handle the selection click on down, so that it's set at the
                 // start of drag.
                 match kind {
-- 
2.43.0


From 61796da18e024e7b29564cc5897415eb986463c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 56/59] fix: wrapped emoji sequences wider than the available
 width

The width of a string isn't always the sum of the widths of its chars (for
example with an emoji followed by a variation selector), so that the rows in which
a text was wrapped could be wider than told, and the tables misaligned.
---
 src/tokens.rs | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/tokens.rs b/src/tokens.rs
index 820d640..6f3564f 100644
--- a/src/tokens.rs
+++ b/src/tokens.rs
@@ -1,7 +1,10 @@
 use {
     crate::*,
     minimad::*,
-    unicode_width::UnicodeWidthChar,
+    unicode_width::{
+        UnicodeWidthChar,
+        UnicodeWidthStr,
+    },
 };
 
 #[derive(Debug)]
@@ -32,20 +35,40 @@ pub(crate) fn tokenize<'s, 'c>(
         let mut token: Option<Token> = None;
         for (idx, char) in compound.src.char_indices() {
             let blank = char.is_whitespace() && !compound.code;
-            let char_width = char.width().unwrap_or(0);
+            let end = idx + char.len_utf8();
+            let mut start = idx;
             if let Some(token) = token.as_mut() {
-                if token.blank == blank && token.width + char_width <= max_token_width {
-                    token.width += char_width;
-                    token.end_in_compound += char.len_utf8();
-                    continue;
+                if token.blank == blank {
+                    // the width of a sequence (for example an emoji followed by a variation
+                    // selector) may be different from the sum of the widths of its chars
+                    let width = compound.src[token.start_in_compound..end].width();
+                    if width <= max_token_width {
+                        token.width = width;
+                        token.end_in_compound = end;
+                        continue;
+                    }
+                    if char.width().unwrap_or(0) == 0 {
+                        // this char can't be separated from the one it modifies
+                        let token_src = &compound.src[token.start_in_compound..idx];
+                        let base = token_src
+                            .char_indices()
+                            .rev()
+                            .find(|(_, c)| c.width().unwrap_or(0) > 0)
+                            .map_or(0, |(base, _)| base);
+                        if base > 0 {
+                            start = token.start_in_compound + base;
+                            token.end_in_compound = start;
+                            token.width = token_src[..base].width();
+                        }
+                    }
                 }
             }
             let new_token = Token {
                 compound: compound.clone(),
                 blank,
-                width: char_width,
-                start_in_compound: idx,
-                end_in_compound: idx + char.len_utf8(),
+                width: compound.src[start..end].width(),
+                start_in_compound: start,
+                end_in_compound: end,
             };
             if let Some(token) = token.replace(new_token) {
                 tokens.push(token);
-- 
2.43.0


From 25482db5cf42878fd7c1569e84a111afbbb3dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:46 +0000
Subject: [PATCH 57/59] fix: wrong width of what's cut when fitting emoji
 sequences

The removed parts were measured char by char while the whole is measured
as a string, so the result could be wider than asked, or needlessly short.
---
 src/fit/composite_fit.rs | 88 +++++++++++++++++++++++-----------------
 1 file changed, 51 insertions(+), 37 deletions(-)

diff --git a/src/fit/composite_fit.rs b/src/fit/composite_fit.rs
index ba0534a..d2a8896 100644
--- a/src/fit/composite_fit.rs
+++ b/src/fit/composite_fit.rs
@@ -1,10 +1,7 @@
 use {
     crate::*,
     minimad::*,
-    unicode_width::{
-        UnicodeWidthChar,
-        UnicodeWidthStr,
-    },
+    unicode_width::UnicodeWidthStr,
 };
 
 pub static ELLIPSIS: &str = "…";
@@ -37,17 +34,42 @@ impl Default for Fitter {
 #[derive(Debug, Clone, Copy)]
 struct CharInfo {
     byte_idx: usize,
-    width: usize, // virer
 }
 fn str_char_infos(s: &str) -> Vec<CharInfo> {
     s.char_indices()
-        .map(|(byte_idx, char)| CharInfo {
-            byte_idx,
-            width: char.width().unwrap_or(0),
-        })
+        .map(|(byte_idx, _)| CharInfo { byte_idx })
         .collect()
 }
 
+// The width of a string may be different from the sum of the widths of its chars
+// (for example with emoji sequences), so parts of strings are always measured
+// as strings
+
+/// return the end of the longest start of the string not wider than the given width
+fn prefix_end(s: &str, max_width: usize) -> usize {
+    let mut end = 0;
+    for (idx, char) in s.char_indices() {
+        let next = idx + char.len_utf8();
+        if s[..next].width() > max_width {
+            break;
+        }
+        end = next;
+    }
+    end
+}
+
+/// return the start of the longest end of the string not wider than the given width
+fn suffix_start(s: &str, max_width: usize) -> usize {
+    let mut start = s.len();
+    for (idx, _) in s.char_indices().rev() {
+        if s[idx..].width() > max_width {
+            break;
+        }
+        start = idx;
+    }
+    start
+}
+
 #[derive(Debug, Clone)]
 struct Zone {
     compound_idx: usize,
@@ -179,11 +201,18 @@ impl Zone {
         let end_byte_idx = self.byte_start_idx + self.char_infos[end_char_idx].byte_idx;
         let head = compound.sub(0, start_byte_idx);
         let tail = compound.tail(end_byte_idx);
+        let gain = compound
+            .src
+            .width()
+            .saturating_sub(head.src.width() + 1 + tail.src.width());
+        if gain == 0 {
+            return 0;
+        }
         compounds[self.compound_idx] = head;
         compounds.insert(self.compound_idx + 1, Compound::raw_str(ELLIPSIS));
         compounds.insert(self.compound_idx + 2, tail);
 
-        removed_width - 1
+        gain
     }
 }
 
@@ -283,24 +312,16 @@ impl Fitter {
                     compounds.remove(0);
                     continue;
                 }
-                let char_infos = str_char_infos(compound.src);
-                let mut last_removed_char_idx = 0;
-                let mut removed_width = 0;
-                loop {
-                    removed_width += char_infos[last_removed_char_idx].width;
-                    if removed_width >= excess_left || last_removed_char_idx + 1 == char_infos.len()
-                    {
-                        break;
-                    }
-                    last_removed_char_idx += 1;
-                }
-                if last_removed_char_idx + 1 == char_infos.len() {
+                let compound_width = compound.src.width();
+                let kept_width = compound_width.saturating_sub(excess_left);
+                let start = suffix_start(compound.src, kept_width);
+                if compound_width < excess_left || start == compound.src.len() {
                     // we remove the whole compound
                     compounds.remove(0);
-                    excess_left -= removed_width.min(excess_left);
+                    excess_left -= compound_width.min(excess_left);
                 } else {
                     // we cut the left part
-                    compound.src = &compound.src[char_infos[last_removed_char_idx + 1].byte_idx..];
+                    compound.src = &compound.src[start..];
                     excess_left = 0;
                 }
             }
@@ -312,23 +333,16 @@ impl Fitter {
             while excess_right > 0 && !compounds.is_empty() {
                 let last_idx = compounds.len() - 1;
                 let compound = &mut compounds[last_idx];
-                let char_infos = str_char_infos(compound.src);
-                let mut removed_width = 0;
-                let mut end_byte_idx = compound.src.len();
-                for ci in char_infos.iter().rev() {
-                    end_byte_idx = ci.byte_idx;
-                    removed_width += ci.width;
-                    if removed_width >= excess_right {
-                        break;
-                    }
-                }
-                if end_byte_idx == 0 {
+                let compound_width = compound.src.width();
+                let kept_width = compound_width.saturating_sub(excess_right);
+                let end = prefix_end(compound.src, kept_width);
+                if compound_width < excess_right || end == 0 {
                     // we remove the whole compound
                     compounds.pop();
-                    excess_right -= removed_width.min(excess_right);
+                    excess_right -= compound_width.min(excess_right);
                 } else {
                     // we cut the right part
-                    compound.src = &compound.src[..end_byte_idx];
+                    compound.src = &compound.src[..end];
                     excess_right = 0;
                 }
             }
-- 
2.43.0


From cf6c4c57c127d819f768acce8043f0045d38f769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:44 +0000
Subject: [PATCH 58/59] fix: tab_replacement of a CropWriter ignored when
 writing strings

---
 src/fit/crop_writer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fit/crop_writer.rs b/src/fit/crop_writer.rs
index cd6f87d..92eb369 100644
--- a/src/fit/crop_writer.rs
+++ b/src/fit/crop_writer.rs
@@ -42,6 +42,11 @@ where
     /// return a tuple containing a string containing either the given &str
     /// or the part fitting the remaining width, and the width of this string)
     pub fn cropped_str<'a>(&self, s: &'a str) -> (Cow<'a, str>, usize) {
+        if self.tab_replacement != TAB_REPLACEMENT && s.contains('\t') {
+            let s = s.replace('\t', self.tab_replacement);
+            let (string, width) = StrFit::make_string(&s, self.allowed);
+            return (Cow::Owned(string), width);
+        }
         StrFit::make_cow(s, self.allowed)
     }
     pub fn queue_unstyled_str(&mut self, s: &str) -> Result<(), Error> {
-- 
2.43.0


From e48831745ec4645e4e3c0ef32af7a6bd80b8b3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:08 +0000
Subject: [PATCH 59/59] fix: MadView::write doesn't flush, so that part of the
 view isn't displayed

---
 src/views/mad_view.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/views/mad_view.rs b/src/views/mad_view.rs
index b18fae0..9f775ee 100644
--- a/src/views/mad_view.rs
+++ b/src/views/mad_view.rs
@@ -34,7 +34,10 @@ impl MadView {
     /// render the markdown in the area, taking the scroll into
     /// account
     pub fn write(&self) -> Result<()> {
-        self.write_on(&mut std::io::stdout())
+        let mut stdout = std::io::stdout();
+        self.write_on(&mut stdout)?;
+        stdout.flush()?;
+        Ok(())
     }
     pub fn write_on<W: Write>(&self, w: &mut W) -> Result<()> {
         let text = self.skin.area_text(&self.markdown, &self.area);
-- 
2.43.0

