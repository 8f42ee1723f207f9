From 73aaee7b7f27c3390e0d76face38ee9ec7ccfbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 01/19] fix: deleting table rows or columns removes the deleted
 cells

The lazily evaluated skip never ran, so the grid kept all of its cells and
failed its own size assertion.
---
 aftermath-core/input_tree/src/input_tree.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..696cabc 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,22 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
+                        old_grid
+                            .by_ref()
+                            .take(values.width() * values.height())
+                            .for_each(drop);
                         new_grid.extend(old_grid);
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From ff2224d50b741b21ec77ddc67bd28db58a0b00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 02/19] fix: ranges in child rows follow edits of their
 ancestor rows

The row index that has to move is the one that leaves the edited row.
---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 4e8e62b3a12ec4ed0468d8d41b2d727abda00d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:45 +0000
Subject: [PATCH 03/19] fix: the root row has no index in its parent

---
 aftermath-core/input_tree/src/focus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..5316876 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -100,7 +100,7 @@ impl<'a> InputFocusRow<'a> {
 
     pub fn index_in_parent(&self) -> Option<usize> {
         self.row_indices
-            .at(self.row_indices.len() - 1)
+            .at(self.row_indices.len().checked_sub(1)?)
             .map(|row_index| row_index.1)
     }
 
-- 
2.43.0


From 25584a1f3fa2b963dcd4be0754831a3b448e1c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 04/19] fix: autocomplete matching crashed on symbols of more
 than one byte

---
 aftermath-core/parser/src/autocomplete.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..65028f5 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -75,7 +75,10 @@ fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
     let mut i = 0;
     while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
         indices.push(index);
-        i = index + 1;
+        match haystack[index..].chars().next() {
+            Some(c) => i = index + c.len_utf8(),
+            None => break,
+        }
     }
     indices
 }
-- 
2.43.0


From 47e935df30401487407a8a85da65c11df9c3ab0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 05/19] fix: autocomplete reported a wrong matched length for
 symbols of more than one byte

---
 aftermath-core/parser/src/autocomplete.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index 65028f5..902da38 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -101,13 +101,13 @@ impl AutocompleteMatcher for AutocompleteRule {
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
             for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+                potential_matches.push((i, i + starting_symbol.len()));
             }
         }
 
         let mut matches = Vec::new();
-        for parser_end_index in potential_matches {
-            let mut parser_current_index = parser_end_index;
+        for (parser_start_index, parser_end_index) in potential_matches {
+            let mut parser_current_index = parser_start_index;
             let mut symbol_count = 1; // The init already matched one symbol
             let mut input_reverse = input.iter().rev().skip(symbol_count);
             while let Some(InputNode::Symbol(symbol)) = input_reverse.next() {
@@ -129,7 +129,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 76f3305b166f422fe45f4c49dff62f91f3a02951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 06/19] fix: moving left out of the first cell of an element no
 longer underflows

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..a529ed7 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                v.checked_add(1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From 51c5ca4ea9305e5e04b63f5b2f7523d3521505a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:25 +0000
Subject: [PATCH 07/19] fix: splicing a range moves the caret along instead of
 leaving it dangling

---
 aftermath-core/caret/src/math_editor.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..f8ca023 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,7 +371,6 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
         let (basic_edit, _) = BasicEdit::replace_range(
@@ -382,7 +381,6 @@ impl MathEditor {
         caret.end_position.apply_edits(&basic_edit);
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From b24bb6e5f6d3531ff837a50a94e82f66c51641df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:48 +0000
Subject: [PATCH 08/19] fix: a spelled-out completion is looked for at the end
 of its own range

---
 aftermath-core/caret/src/math_editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index f8ca023..3799bd0 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -309,7 +309,7 @@ impl MathEditor {
             .rule
             .matches(
                 autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
+                autocomplete_range.len(),
                 1,
             )
             .iter()
-- 
2.43.0


From 96822253a7ee7297142ef4ffa6e253247b301ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:30 +0000
Subject: [PATCH 09/19] fix: moving past a completion that changes nothing no
 longer discards the redo history

---
 aftermath-core/caret/src/math_editor.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index 3799bd0..36969b7 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -319,6 +319,11 @@ impl MathEditor {
             return None;
         }
 
+        // e.g. "lim" completes to itself. Merely moving past it is not a change and must not end up in the history.
+        if autocomplete_range.values() == autocorrect.rule.result {
+            return None;
+        }
+
         // TODO:
         // if autocomplete_range.left < caret.start_position && we have a valid autocomplete option at (autocomplete_range.left..caret.start_position) {
         // then we're in a case like "lim|" -> "lims|" -> "limsup|"
-- 
2.43.0


From c83f40e17501a6cee9d3cd6257c61c07aad0532c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 10/19] fix: reading serialized elements rejects grids of an
 impossible size

---
 aftermath-core/input_tree/src/grid.rs | 23 +++++++++++++++++
 aftermath-core/input_tree/src/node.rs | 36 ++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..cf7d05e 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -32,11 +32,34 @@ pub enum GridDirection {
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "UncheckedGridVec<T>")]
 pub struct GridVec<T> {
     values: Vec<T>,
     width: usize,
 }
 
+/// What a serialized [GridVec] looks like, might have an invalid size.
+#[derive(Deserialize)]
+struct UncheckedGridVec<T> {
+    values: Vec<T>,
+    width: usize,
+}
+
+impl<T> TryFrom<UncheckedGridVec<T>> for GridVec<T> {
+    type Error = String;
+
+    fn try_from(grid: UncheckedGridVec<T>) -> Result<Self, Self::Error> {
+        if grid.width == 0 || grid.values.len() % grid.width != 0 {
+            return Err(format!(
+                "{} values cannot be a grid of width {}",
+                grid.values.len(),
+                grid.width
+            ));
+        }
+        Ok(GridVec::from_one_dimensional(grid.values, grid.width))
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
diff --git a/aftermath-core/input_tree/src/node.rs b/aftermath-core/input_tree/src/node.rs
index 7375313..2da44d1 100644
--- a/aftermath-core/input_tree/src/node.rs
+++ b/aftermath-core/input_tree/src/node.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    grid::{GridVec, Index2D},
+    grid::{Grid, GridVec, Index2D},
     print_helpers::write_with_escaped_double_quotes,
 };
 
@@ -16,6 +16,7 @@ use super::row::InputRow;
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "UncheckedInputNode")]
 pub enum InputNode {
     /// A container with a type
     Container(InputNodeVariant, GridVec<InputRow>),
@@ -25,6 +26,39 @@ pub enum InputNode {
     Symbol(String),
 }
 
+/// What a serialized [InputNode] looks like, might have a grid size that doesn't belong to its type.
+#[derive(Deserialize)]
+enum UncheckedInputNode {
+    Container(InputNodeVariant, GridVec<InputRow>),
+    Symbol(String),
+}
+
+impl TryFrom<UncheckedInputNode> for InputNode {
+    type Error = String;
+
+    fn try_from(node: UncheckedInputNode) -> Result<Self, Self::Error> {
+        match node {
+            UncheckedInputNode::Container(container_type, grid) => {
+                let is_valid_size = match container_type {
+                    InputNodeVariant::Fraction => grid.size() == (1, 2),
+                    InputNodeVariant::Root => grid.size() == (2, 1),
+                    InputNodeVariant::Sup | InputNodeVariant::Sub => grid.size() == (1, 1),
+                    InputNodeVariant::Table => !grid.is_empty(),
+                };
+                if !is_valid_size {
+                    return Err(format!(
+                        "{:?} cannot have the size {:?}",
+                        container_type,
+                        grid.size()
+                    ));
+                }
+                Ok(InputNode::Container(container_type, grid))
+            }
+            UncheckedInputNode::Symbol(symbol) => Ok(InputNode::Symbol(symbol)),
+        }
+    }
+}
+
 // Could be extended with constructs like <mmultiscripts>
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Serialize, Deserialize)]
 #[cfg_attr(
-- 
2.43.0


From a2e8f54de989228a914f543ee928e7ea4ef7acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 11/19] fix: importing a script without a base no longer
 crashes

The number of children is checked before they are used, as for munder, mover and munderover.
---
 src/mathml/parsing.ts | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..36940b3 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,25 +102,23 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sub(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return (
+      expectNChildren(element, 2, errors) ?? [
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
+        sup(wrapInRow(toMathLayout(children[1], errors))),
+      ]
+    );
   } else if (tagIs(element, "msubsup")) {
-    let base = toMathLayout(children[0], errors);
-    if (!Array.isArray(base)) {
-      base = [base];
-    }
     return (
       expectNChildren(element, 3, errors) ?? [
-        ...base,
+        ...wrapInRow(toMathLayout(children[0], errors)).values,
         sub(wrapInRow(toMathLayout(children[1], errors))),
         sup(wrapInRow(toMathLayout(children[2], errors))),
       ]
-- 
2.43.0


From 9d0fe21467508dddb82581fa8bd397f63e2aa58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 12/19] fix: importing a table without cells no longer makes a
 table of width 0

The editor has no empty tables; reading one back fails.
---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 36940b3..42ca7e2 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -153,6 +153,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Expected cells in " + element.tagName.toLowerCase()));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From 3410c149e3c09e66e2b8698e87eb3d1d3e2a8116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 13/19] fix: importing MathML keeps what is inside of mstyle

It was dropped without an error. The example page has such a formula.
---
 src/mathml/parsing.ts | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 42ca7e2..4d686b4 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -78,7 +78,7 @@ function table(values: InputRow[], width: number): InputNode {
 function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode) | (InputRow | InputNode)[] {
   let children = [...element.children];
 
-  if (tagIs(element, "math", "mrow", "mtd")) {
+  if (tagIs(element, "math", "mrow", "mtd", "mstyle")) {
     // Uses flatMap so that msub can return two elements...
     return wrapInRow(children.flatMap((c) => toMathLayout(c, errors)));
   } else if (tagIs(element, "semantics") && children.length > 0) {
@@ -165,8 +165,6 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     );
 
     return table(tableCells, tableWidth);
-  } else if (tagIs(element, "mstyle")) {
-    return [];
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
     return symbol("Error");
-- 
2.43.0


From 2433fc2d981d8a6076a48f67431761cb1f16f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:01 +0000
Subject: [PATCH 14/19] fix: the placeholder for what cannot be imported
 consists of single graphemes

A symbol is one grapheme cluster, "Error" was stored as one symbol.
---
 src/mathml/parsing.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 4d686b4..9132a5a 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -17,6 +17,12 @@ function symbol(value: string): InputNode {
     Symbol: value.normalize("NFD"),
   };
 }
+/**
+ * Takes the place of something that cannot be imported.
+ */
+function errorPlaceholder(): InputNode[] {
+  return unicodeSplit("Error").map((v) => symbol(v));
+}
 function fraction(values: [InputRow, InputRow]): InputNode {
   return {
     Container: [
@@ -149,13 +155,13 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
   } else if (tagIs(element, "mtable")) {
     if (!children.every((c) => tagIs(c, "mtr") && [...c.children].every((cc) => tagIs(cc, "mtd")))) {
       errors.push(new Error("Unexpected children " + element));
-      return symbol("Error");
+      return errorPlaceholder();
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
     if (tableWidth === 0) {
       errors.push(new Error("Expected cells in " + element.tagName.toLowerCase()));
-      return symbol("Error");
+      return errorPlaceholder();
     }
 
     const tableCells = children.flatMap((c) =>
@@ -167,14 +173,14 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     return table(tableCells, tableWidth);
   } else {
     errors.push(new Error("Unknown element " + element.tagName));
-    return symbol("Error");
+    return errorPlaceholder();
   }
 }
 
-function expectNChildren(element: Element, n: number, errors: Error[]): InputNode | null {
+function expectNChildren(element: Element, n: number, errors: Error[]): InputNode[] | null {
   if (element.children.length != n) {
     errors.push(new Error(`Expected ${n} children in ${element.tagName.toLowerCase()}`));
-    return symbol("Error");
+    return errorPlaceholder();
   }
   return null;
 }
-- 
2.43.0


From 683997708991ef12a0c59007056eb7e8b8d4d9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 15/19] fix: rendering a script that is followed by whitespace
 no longer crashes

---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From f32906bd4d1fc7cbbaa6315988de17f1af6d26f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 16/19] fix: a rendered script keeps its own row index, not the
 one of the formula around it

---
 src/mathml/renderer.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..26010c0 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,7 +84,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
@@ -93,7 +93,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
-- 
2.43.0


From 8de49e7cca7bb368abfc1bc88dfd072cd2d08e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:04 +0000
Subject: [PATCH 17/19] fix: an operator of several symbols is one leaf symbol
 per grapheme

---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..079e73c 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From 13ab45683ac591df32f18e796e337a8ad7c27c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:12 +0000
Subject: [PATCH 18/19] fix: what dragging or double clicking completes is
 shown at once

---
 src/component/math-editor.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..a3bf262 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -251,7 +251,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
@@ -263,7 +263,7 @@ export class MathEditor extends HTMLElement {
       }
       this.mathEditor.finish_selection();
       container.releasePointerCapture(e.pointerId);
-      this.renderCarets();
+      this.updateInput();
     });
     // For double clicking
     // - The dblclick event fires too late for text selection (text selection should happen on pointerdown)
@@ -278,11 +278,11 @@ export class MathEditor extends HTMLElement {
       if (clickCount === 2) {
         // double click select
         this.mathEditor.start_selection(newPosition, "Word");
-        this.renderCarets();
+        this.updateInput();
       } else if (clickCount === 3) {
         // triple click select
         this.mathEditor.start_selection(newPosition, "Line");
-        this.renderCarets();
+        this.updateInput();
       }
     });
     container.addEventListener("pointermove", (e) => {
@@ -292,7 +292,7 @@ export class MathEditor extends HTMLElement {
       const newPosition = getPointerPosition(e);
       if (!newPosition) return;
       this.mathEditor.extend_selection(newPosition);
-      this.renderCarets();
+      this.updateInput();
     });
   }
 
-- 
2.43.0


From fcea7175accadced17d970d1e23e2595834b04db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:11 +0000
Subject: [PATCH 19/19] fix: negation stands in front of its operand instead of
 between two

---
 aftermath-core/parser/src/rule_collections/logic_rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/parser/src/rule_collections/logic_rules.rs b/aftermath-core/parser/src/rule_collections/logic_rules.rs
index f257ab6..f3b86a5 100644
--- a/aftermath-core/parser/src/rule_collections/logic_rules.rs
+++ b/aftermath-core/parser/src/rule_collections/logic_rules.rs
@@ -59,7 +59,7 @@ impl LogicRules {
                 100,
                 just_operator_parser('∨'),
             ),
-            left_infix_rule(
+            prefix_rule(
                 modules.with_rule_name(Self::rule_name("Not")),
                 100,
                 just_operator_parser('¬'),
-- 
2.43.0

