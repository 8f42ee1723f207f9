#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing; it rewrites the file)."""
import json, os
P = []
IT = "aftermath-core/input_tree/src/"
PA = "aftermath-core/parser/src/"
CA = "aftermath-core/caret/src/"
SE = "aftermath-core/serialization/src/"

def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- document model
p("C01", "Every edit sequence can be undone exactly",
  "Applying any sequence of valid edits to a formula (inserting or deleting elements anywhere in the nesting, inserting or deleting rows or columns of a table) and then applying the inverses in reverse order restores exactly the formula one started with; re-applying the edits gives exactly the edited formula again. The inverse of an inverse is the original edit.",
  ["inputs", "histories"], "all formulas, all sequences of valid row edits and table row/column edits at any nesting depth",
  "invert_edit inverts one row insertion in a three-symbol row; no test applies a table deletion, so neither undo of a table insertion nor any multi-edit history is reached.",
  [IT+"editing/basic_edit.rs", IT+"input_tree.rs", IT+"editing/invertible.rs"],
  [("edit inversion", IT+"editing/basic_edit.rs: Invertible impls"), ("edit application", IT+"input_tree.rs: InputTree::apply_edit")],
  ["tree after edits + inverse edits"])
p("C02", "A row edit changes exactly the addressed span of the addressed row",
  "An insertion puts the given elements, in order, at the given place of the given row, and a deletion removes exactly as many elements as it carries from there; every other row and element of the formula is unchanged. The ready-made edits for removing a range, inserting at a place and replacing a range have exactly that effect and report the resulting caret place or range correctly.",
  ["inputs"], "all formulas, all rows at any depth, all offsets, lengths and inserted contents, ranges given in either direction",
  "Tests insert/delete in rows of three symbols; offsets at nested rows, backward ranges and the reported positions are not covered.",
  [IT+"input_tree.rs", IT+"editing/basic_edit.rs"],
  [("splice", IT+"input_tree.rs: InputTree::apply_edit"), ("edit construction", IT+"editing/basic_edit.rs: remove_range / insert_at_position / replace_range")])
p("C03", "Table edits insert or delete whole rows and columns",
  "Inserting or deleting k rows (or columns) of a table at a given place moves every other cell by exactly that amount and leaves its content untouched; the table stays rectangular with the expected width and height, and the rest of the formula is unchanged.",
  ["inputs", "histories"], "all table sizes, all positions and counts, tables at any nesting depth, sequences of such edits",
  "Only one insertion of a row and one of a column into fixed tables are tested; deletions are never exercised.",
  [IT+"input_tree.rs", IT+"grid.rs"],
  [("grid rebuild", IT+"input_tree.rs: InputTree::apply_edit, Grid branch"), ("size", IT+"editing/basic_edit.rs: GridEdit::new_grid_size")])
p("C04", "Tracked positions and ranges follow the content across row edits",
  "A stored caret position or range that is carried through an insertion or deletion keeps pointing between the same surviving neighbours of the same surviving row; if its content was deleted it moves to the place of the deletion. At the point of an insertion a position stays in front of the new content while the end of a range includes it, direction of the range is preserved, and the result always denotes an existing place of the edited formula.",
  ["inputs", "histories"], "all formulas, positions/ranges at any depth, all row edits above, beside, at, inside or around them, and sequences of edits",
  "Two tests, both with a root-row range and a root-row edit; positions inside nested rows are never tracked.",
  [IT+"focus/row_range.rs", IT+"focus/row_position.rs", IT+"editing/row_indices_edit.rs"],
  [("range update", IT+"focus/row_range.rs: Editable for MinimalInputRowRange"), ("position update", IT+"focus/row_position.rs: Editable for MinimalInputRowPosition")])
p("C05", "Positions are totally ordered in reading order",
  "Comparing any two caret positions of a formula gives exactly their reading order: antisymmetric, transitive, equal only for the same place, with everything inside an element lying after the place in front of it and before the place behind it, and the rows of an element in row order.",
  ["inputs"], "all formulas and all pairs/triples of positions at any depth",
  "Three tests compare hand-picked pairs.",
  [IT+"row.rs", IT+"focus/row_position.rs"],
  [("comparison", IT+"row.rs: RowIndices::cmp_indices_and_offset"), ("Ord", IT+"focus/row_position.rs")])
p("C06", "Two positions span the smallest covering row range, keeping direction",
  "For any two positions the resulting range lies in the deepest row that contains both, covers both, is as small as possible, and runs forwards exactly when the first position is not after the second. Left and right ends, length, covered elements and containment of positions agree with it.",
  ["inputs"], "all formulas, all ordered pairs of positions, incl. positions in two rows of one element",
  "input_tree has no test for it and the caret crate's selection tests check a few fixed selections.",
  [IT+"input_tree.rs", IT+"focus/row_range.rs", IT+"row.rs"],
  [("span", IT+"input_tree.rs: range_from_positions"), ("range accessors", IT+"focus/row_range.rs: InputRowRange"), ("common prefix", IT+"row.rs: RowIndices::get_shared")])
p("C07", "Walking down and back up the formula is consistent and total",
  "Every row and element can be reached by walking down by its address, reports that same address and its place in its parent, and walking up leads back to where one came from, including at the outermost row which has no parent and no place in one. Asking for a child that does not exist is answered with 'none' and never a crash, and saving a position or range in its compact form and restoring it gives the same place. Two rows or elements reached count as equal exactly if they stand at the same address.",
  ["inputs"], "all formulas, all addresses (valid and out of range) and all offsets",
  "input_focus_tests walks into the first elements of one fixed formula.",
  [IT+"focus.rs", IT+"focus/row_position.rs", IT+"focus/row_range.rs", IT+"focus/grid_range.rs"],
  [("navigation", IT+"focus.rs: InputFocusRow/InputFocusNode"), ("compact form", IT+"focus/*.rs: to_minimal/from_minimal")])
p("C08", "The printed form of a formula is unambiguous",
  "Two formulas print the same text only if they are equal, and the printed text names every element kind, every table size and every symbol (with quotes and backslashes escaped), so the formula can be read back from it.",
  ["inputs"], "all formulas, any symbols incl. quotes, backslashes, parentheses, spaces, non-ASCII",
  "printing_tests compare two fixed outputs.",
  [IT+"node.rs", IT+"row.rs", IT+"grid.rs", IT+"print_helpers.rs"],
  [("Display", IT+"node.rs, row.rs, grid.rs"), ("escaping", IT+"print_helpers.rs")])
p("C09", "Grid addressing is exact and never leaves the grid",
  "Between cell numbers and (column, row) addresses of a grid there is a one-to-one correspondence in row-major order; moving an address is refused exactly when it would leave the grid; reading or replacing a cell affects exactly that cell; the cells number width times height. A rectangular selection given by two opposite cells reports the first and last of the two in row-major order as its corners, whichever is given first, and knows when it is empty.",
  ["inputs"], "all grid sizes, all in-range and out-of-range addresses and offsets, all pairs of cells",
  "No test addresses grid cells at all.",
  [IT+"grid.rs", IT+"grid/index2d.rs", IT+"grid/grid_view.rs"],
  [("addresses", IT+"grid/index2d.rs"), ("cells", IT+"grid.rs: GridVec"), ("rectangles", IT+"grid/grid_view.rs: GridRectangle")])
# ---------------------------------------------------------------- clipboard
p("C10", "Copied content survives the clipboard unchanged",
  "Serialising any selected part of a formula to the clipboard format and reading it back yields exactly the same elements, whatever symbols it contains; the same holds for stored caret addresses and selections exchanged with the user interface as JSON.",
  ["inputs"], "all element lists, all symbols incl. control characters and any Unicode",
  "No test serialises anything.",
  [SE+"lib.rs", IT+"node.rs", IT+"row.rs", IT+"grid.rs"],
  [("format", SE+"lib.rs: serialize_input_nodes/deserialize_input_nodes"), ("serde derives", IT+"*")])
p("C11", "Hostile clipboard data is rejected or yields a well-formed formula",
  "Whatever text is pasted, it is either rejected with an error leaving the formula, caret and history unchanged, or it yields elements whose grids are properly rectangular, so that every later operation on the formula works; pasting never crashes the editor.",
  ["inputs"], "arbitrary text, structurally mutated JSON of valid clipboard contents (grid sizes, missing/extra fields, wrong types)",
  "No test deserialises anything.",
  [SE+"lib.rs", IT+"grid.rs", CA+"math_editor.rs"],
  [("decoding", SE+"lib.rs: deserialize_input_nodes"), ("grid invariants", IT+"grid.rs: GridVec"), ("paste", CA+"math_editor.rs: MathEditor::paste")])
# ---------------------------------------------------------------- editor
p("C12", "Undo and redo walk a linear history exactly",
  "Each undo restores exactly the formula and caret that existed before the undone change, each redo restores exactly what the undo took away, undo at the beginning and redo at the end do nothing, and any new change discards what could be redone. Pure caret movements are not part of the history.",
  ["histories"], "all interleavings of typing, deleting, pasting, splicing, moving, selecting, autocompleting, undoing and redoing",
  "No test performs an undo through the editor.",
  [CA+"undo_redo_manager.rs", CA+"math_editor.rs", CA+"editor_action_builder.rs", CA+"primitive/caret_edit.rs"],
  [("history", CA+"undo_redo_manager.rs"), ("recording", CA+"editor_action_builder.rs: finish"), ("inverse", CA+"primitive/caret_edit.rs")])
p("C13", "The caret is always valid and no operation crashes the editor",
  "After any sequence of editor operations both ends of the caret denote existing places of the current formula and the reported selection can be resolved in it; no supported operation crashes, whatever the formula and caret.",
  ["histories", "inputs"], "all sequences of supported editor operations (movement, selection, typing any symbols, deletion, paste, splice, autocomplete, undo, redo)",
  "The caret crate's only tests are four fixed selections.",
  [CA+"math_editor.rs", CA+"caret.rs", CA+"primitive/movement.rs", CA+"primitive/primitive_edit.rs", CA+"autocomplete.rs"],
  [("editor operations", CA+"math_editor.rs"), ("caret restore", CA+"caret.rs: Caret::from_minimal"), ("position tracking", IT+"focus/row_range.rs")])
p("C14", "Typing and deleting change only what the caret addresses",
  "Typing or pasting replaces exactly the selected elements by the new ones and puts the caret behind them. Deleting a selection removes exactly it. Deleting at a caret removes exactly the adjacent symbol; deleting forwards in front of a script, backwards at the beginning of a script's content, or across the border between the two parts of a fraction or root dissolves exactly that element, keeping all of its content in order and the caret between the same symbols; deleting outwards at the outer edge of an element all of whose rows are empty removes it; anywhere else only the caret moves, as with the arrow key, and the formula stays as it is.",
  ["inputs"], "all formulas, all carets and row selections, deletion to the left, to the right and of a range, any typed or pasted elements",
  "No test types or deletes through the editor.",
  [CA+"primitive/primitive_edit.rs", CA+"math_editor.rs", IT+"editing/basic_edit.rs"],
  [("deletion", CA+"primitive/primitive_edit.rs: remove_at_caret"), ("insertion", CA+"primitive/primitive_edit.rs: insert_at_range")])
p("C15", "Left and right movement visits every position once and is reversible",
  "Pressing right repeatedly from the beginning visits every caret position of the formula exactly once in reading order and stops at the end, pressing left does the reverse; each undoes the other. With a non-empty selection, left moves from its beginning and right from its end (where that is impossible, the selection just collapses there). Extending a selection by an arrow keeps its start and moves its end in the same way.",
  ["inputs"], "all formulas, all positions, all row selections",
  "No movement is tested.",
  [CA+"primitive/movement.rs"],
  [("horizontal movement", CA+"primitive/movement.rs: move_horizontal_into / move_horizontal_beyond_edge"), ("selection collapse", CA+"primitive/movement.rs: move_caret_range")])
p("C16", "Up and down movement goes to the nearest row above or below",
  "Moving up or down goes to the cell directly above or below in the same column of the innermost surrounding element that has one (entering at its end when going up and its start when going down), leaves a superscript upwards and a subscript downwards to the place in front of it, and otherwise leaves the caret where it is; moving down then up returns to the same cell. From a selection, up starts at its beginning and down at its end.",
  ["inputs"], "all formulas incl. nested fractions, tables, roots, scripts; all positions",
  "No movement is tested.",
  [CA+"primitive/movement.rs", IT+"grid/index2d.rs"],
  [("vertical movement", CA+"primitive/movement.rs: move_vertical"), ("cell arithmetic", IT+"grid/index2d.rs: add_checked/sub_checked")])
p("C17", "Autocomplete offers exactly the rules the text before the caret matches",
  "A rule is offered for a caret exactly when the symbols directly in front of the caret spell a beginning of the rule's text (at least the required number of symbols), once per such match, with the number of matched symbols and the matched length reported correctly; it counts as complete exactly when the whole text was spelled. This holds for symbols and rules in any script and never crashes.",
  ["inputs"], "all rules, all inputs incl. non-ASCII and multi-character symbols, all carets and minimum lengths",
  "autocomplete_tests cover five ASCII inputs and cannot be run here; matching of non-ASCII text is untested.",
  [PA+"autocomplete.rs"],
  [("matching", PA+"autocomplete.rs: AutocompleteRule::matches"), ("completeness", PA+"autocomplete.rs: is_complete_match")])
p("C18", "Accepting a completion replaces exactly the matched text",
  "Accepting an autocompletion, explicitly or by moving on after spelling it completely, replaces exactly the matched symbols by the rule's result as one undoable change, leaves the rest of the formula alone and keeps the caret at its place relative to the surviving content; when nothing matches completely or the user is still inside the word, nothing is replaced. Moving in the list of completions goes to the neighbouring one and changes nothing else; the one selected stays selected while it is offered, however often one looks; where none were offered just before, the first is selected.",
  ["histories"], "all typed texts over the rule alphabet, all later movements, carets at any depth",
  "No test uses completion through the editor.",
  [CA+"autocomplete.rs", CA+"math_editor.rs"],
  [("autocorrect", CA+"math_editor.rs: apply_autocorrect / finish_autocomplete / splice_at_range"), ("matched range", CA+"autocomplete.rs: get_caret_range")])
p("C22", "The syntax tree always reflects the current formula",
  "Whenever the user interface asks, after any history of changes, undos and redos, the syntax tree it gets is the one a fresh parse of the current formula gives, and parsing the same formula twice gives the same tree.",
  ["histories"], "all operation histories with queries at arbitrary points",
  "No test asks the editor for a syntax tree.",
  [CA+"math_editor.rs", CA+"editor_action_builder.rs", PA+"parser.rs"],
  [("cache", CA+"math_editor.rs: parsed / get_syntax_tree"), ("invalidation", CA+"editor_action_builder.rs: finish, math_editor.rs: apply_action")])
p("C23", "Selections are grid selections exactly when they lie in one table",
  "A selection whose two ends lie inside cells of one same table, in different cells, is reported as a block of that table's cells with those two cells as corners; every other selection is reported as the smallest row range covering both ends. Dragging on or extending moves only the end, pressing anew begins at that place, and selecting all selects the whole outermost row.",
  ["inputs"], "all formulas, all ordered pairs of positions",
  "selection_tests check a handful of fixed selections and cannot be run here.",
  [CA+"caret.rs", IT+"input_tree.rs", IT+"grid/grid_view.rs"],
  [("selection kind", CA+"caret.rs: CaretSelection::from_positions")])
# ---------------------------------------------------------------- parser
p("C19", "Every formula parses",
  "Parsing any formula, however malformed, terminates with a syntax tree and never crashes; an incomplete or unknown part is represented by an explicit error node instead.",
  ["inputs"], "all formulas over operators, letters, digits, brackets, quotes, spaces, unknown symbols and nested elements",
  "The parser tests run about twenty fixed formulas and cannot be built here.",
  [PA+"parser.rs", PA+"math_parser.rs", PA+"parser/pratt_parser.rs", PA+"rule_collections/built_in_rules.rs"],
  [("error recovery", PA+"parser/pratt_parser.rs: pratt_parse / parse_unknown"), ("error nodes", PA+"rule_collections/built_in_rules.rs")])
p("C20", "The syntax tree covers the formula completely and losslessly",
  "The root node covers the whole row from the first to the last offset; the children of a node on the same row are sorted, contiguous and contained in it, and together with its own tokens account for every element; reading the leaves from left to right gives back exactly the symbols of the row, and an element with rows has exactly one syntax subtree per row, in the same grid shape, each covering its row.",
  ["inputs"], "all formulas, well-formed or not, at any nesting depth",
  "The parser tests compare printed trees, which do not show ranges, for about twenty fixed formulas.",
  [PA+"syntax_tree/syntax_node.rs", PA+"math_parser.rs", PA+"rule_collections/built_in_rules.rs", PA+"rule_collection.rs"],
  [("range bookkeeping", PA+"syntax_tree/syntax_node.rs: SyntaxNode::new"), ("whitespace nodes", PA+"math_parser.rs"), ("row subtrees", PA+"rule_collections/built_in_rules.rs: make_container_parser")])
p("C21", "Operators group by precedence and associativity",
  "Any expression written out with the minimum of brackets required by the published precedences (comparisons, tuples and negation below sums, sums below products, products below signs, signs below factorial, application, and scripts, all binary operators grouping to the left) parses back to the same expression, regardless of spaces between tokens; adding the implied brackets does not change the grouping.",
  ["inputs"], "all expression trees over the default operators, all spacings",
  "The tests contain a dozen fixed expressions.",
  [PA+"parser/pratt_parser.rs", PA+"math_parser.rs", PA+"rule_collections/arithmetic_rules.rs", PA+"rule_collections/comparison_rules.rs", PA+"rule_collections/calculus_rules.rs", PA+"rule_collections/logic_rules.rs", PA+"rule_collections/collections_rules.rs", PA+"rule_collections/function_rules.rs"],
  [("Pratt loop", PA+"parser/pratt_parser.rs: pratt_parse"), ("binding powers", PA+"rule_collections/*.rs"), ("strengths", PA+"parser/pratt_parser.rs: BindingPower")])
p("C29", "Numbers, names and strings are recognised as whole tokens",
  "A run of digits, optionally with a fractional part, is one number; a run of letters, marks and following digits is one name unless it starts with a word operator; text between quotes, with backslash escapes, is one string even if it contains operators; and a formula made only of well-formed tokens and operators contains no error node while an unknown symbol or missing operand always produces one.",
  ["inputs"], "all token sequences over the default rules incl. escapes, multi-character symbols and Unicode identifiers, all spacings",
  "The tests contain single examples of each token.",
  [PA+"rule_collections/arithmetic_rules.rs", PA+"rule_collections/core_rules.rs", PA+"rule_collections/string_rules.rs", PA+"math_parser.rs"],
  [("number rule", PA+"rule_collections/arithmetic_rules.rs"), ("name rule", PA+"rule_collections/core_rules.rs"), ("string rule", PA+"rule_collections/string_rules.rs"), ("rule priority", PA+"math_parser.rs")])
p("C27", "Syntax node names and numbers correspond one to one",
  "Registering names hands out one number per distinct name and the same number again for the same name, both lookups agree with it, and every node of every syntax tree carries a registered number. Names consist of at least a namespace and a name, all valid identifiers; anything else is refused.",
  ["inputs", "histories"], "all sequences of registrations and lookups, all name strings",
  "No test touches the name map.",
  [PA+"syntax_tree/node_type_id.rs", PA+"syntax_tree/node_identifier.rs", PA+"parse_modules.rs"],
  [("map", PA+"syntax_tree/node_type_id.rs: SyntaxNodeNameMap"), ("validation", PA+"syntax_tree/node_identifier.rs: PathIdentifier::new")])
p("C31", "The printed syntax tree tells the tree",
  "The printed form of any syntax tree says, for every node, its name, its value and what it contains: its nodes in order, the size and all the cells of its rows, or its text with quotes and backslashes escaped. Read back by these rules alone it gives exactly this tree, so two trees that differ in any of this are never printed alike. Printing never fails, not even with a name map that lacks a name.",
  ["inputs"], "all syntax trees: of any formula, well-formed or not, and freely composed ones with any leaf texts, values and grids",
  "The parser tests compare printed trees of about twenty formulas, none with escapes, and would share any ambiguity of the printed form.",
  [PA+"syntax_tree/display_syntax_tree.rs", IT+"print_helpers.rs", PA+"syntax_tree/syntax_node.rs"],
  [("printing", PA+"syntax_tree/display_syntax_tree.rs"), ("escaping", IT+"print_helpers.rs")])
p("C32", "A parser offers the notation of its modules, later ones first",
  "Leaving out a module whose notation does not occur in a formula, and arranging the modules in another order, changes no syntax tree, except that of two rules for the same symbols the one registered later decides: a module behind the others that claims their operators and atoms for its own names, sides and binding powers gets them, everywhere in every formula, and in front of them it changes nothing. The completions offered are those of all included modules, the last registered first.",
  ["inputs"], "all choices and orders of the published modules, all sets of claims by a further module, all formulas and typed texts",
  "The tests always use the same modules in the same order.",
  [PA+"math_parser.rs", PA+"parse_modules.rs", PA+"parser.rs", PA+"parse_module.rs", PA+"rule_collections/*.rs"],
  [("putting modules together", PA+"parse_modules.rs: ParseModuleCollection"), ("rule order", PA+"math_parser.rs"), ("completions", PA+"parser.rs: MathParser")])
# ---------------------------------------------------------------- user interface
p("C24", "Imported MathML becomes a well-formed formula with the same content",
  "Importing any MathML document yields a well-formed formula (fractions and roots with two rows, scripts with one, tables rectangular and not empty, one grapheme per symbol) whose symbols are the text of the document in order and whose elements mirror its structure; anything unsupported or malformed is reported as an error and replaced by a placeholder without affecting its surroundings, and import never crashes.",
  ["inputs"], "all trees of supported, unsupported and malformed MathML elements with any text",
  "There is no test for the TypeScript part.",
  ["src/mathml/parsing.ts"],
  [("import", "src/mathml/parsing.ts: toMathLayout"), ("child count check", "src/mathml/parsing.ts: expectNChildren"), ("grapheme split", "src/mathml/parsing.ts: unicodeSplit")])
p("C25", "Every syntax tree renders and every row can be found in the rendering",
  "Rendering the syntax tree of any formula, well-formed or not, succeeds and produces a rendering whose leaf texts are the formula's symbols in order and in which everything is drawn as what it is: fractions, roots, scripts beside their base and tables of their size as such, numbers, names, operators and text each as their kind, brackets growing with what they enclose; for every row of the formula the rendering and the syntax tree can be queried by the row's address and give the element that covers that row.",
  ["inputs"], "all formulas (through the real parser), all rows",
  "There is no test for the TypeScript part.",
  ["src/mathml/renderer.ts", "src/mathml/renderer/*.ts", "src/mathml/render-result.ts", "src/core/index.ts"],
  [("renderers", "src/mathml/renderer.ts"), ("row lookup", "src/mathml/render-result.ts: getElement"), ("syntax row lookup", "src/core/index.ts: getNodeWithRowIndices")])
p("C26", "Caret places on screen and clicks correspond",
  "For every caret position of a formula the rendering reports a place on screen; the places of a row go strictly from left to right, each between what is drawn in front of it and what is drawn behind it, within the row's drawing, with a caret as tall as the row's text, which in a row of symbols only stands on their line. A click on the left or right half of a symbol gives the position in front of or behind it; any click gives an existing position, and one whose place is nearest to it among those in the innermost part of the drawing under it. A selection is drawn from the place of its left end to that of its right end, whichever end is the caret, and covers the selected content within its row.",
  ["inputs"], "all formulas (through the real parser) under simulated layouts, all positions, ranges and click points",
  "There is no test for the TypeScript part.",
  ["src/mathml/render-result.ts", "src/mathml/renderer/*.ts", "src/rendering/*.ts"],
  [("caret place", "src/mathml/renderer/*: getCaretPosition"), ("hit test", "src/mathml/render-result.ts: getLayoutPosition"), ("selection", "src/mathml/render-result.ts: getViewportSelection")])
p("C28", "Screen geometry is exact",
  "The distance from a point to a rectangle, segment or point is the true minimum distance, zero exactly inside or on it and symmetric where it should be; joining rectangles gives the smallest rectangle containing both, independent of order.",
  ["inputs"], "all points, rectangles, segments incl. degenerate ones",
  "There is no test for the TypeScript part.",
  ["src/rendering/viewport-coordinate.ts", "src/rendering/rendered-selection.ts"],
  [("geometry", "src/rendering/viewport-coordinate.ts: ViewportMath"), ("selection join", "src/rendering/rendered-selection.ts")])
p("C30", "The editor element shows what is edited and carries out what is done to it",
  "After every event the editor element has handled (keys, typed text, deletion, clipboard, pointer, changes of its mathml attribute, being inserted into a page), the formula and caret are those of the same operations carried out on the editor directly, the drawing is that of the current formula, and the caret and the selection are shown at the places of the current caret. Events that mean nothing to it, and clipboards that cannot be read, change nothing.",
  ["inputs", "histories"], "all sequences of user events on all formulas, with deferred input interleaved",
  "There is no test for the TypeScript part; the Rust tests never run the element.",
  ["src/component/math-editor.ts", "src/component/caret/single-caret-element.ts", "src/core/index.ts"],
  [("events", "src/component/math-editor.ts: addInputEventListeners, addPointerEventListeners"), ("redrawing", "src/component/math-editor.ts: updateInput, renderCarets"), ("import", "src/component/math-editor.ts: attributeChangedCallback")])
p("C33", "Formulas on a page become editors that do not influence each other",
  "When the page is loaded, every formula marked as editable is replaced, at its place, by an editor showing that formula, and nothing else on the page changes. Whatever is done to one editor changes neither formula, caret, history, drawing nor selection of the others; a click gives the keyboard to the editor that was clicked; what is copied or cut in one can be pasted into another.",
  ["inputs", "histories"], "all pages with several formulas, all interleavings of user events on the editors",
  "There is no test for the TypeScript part.",
  ["src/main.ts", "src/component/math-editor.ts"],
  [("replacing the formulas", "src/main.ts"), ("state of each editor", "src/component/math-editor.ts: MathEditor")])
p("C34", "The web bindings carry out exactly the editor's operations",
  "Every call of the web bindings has the same effect and the same answer (whether something was done, the copied text, the error) as the operation of that name on an editor set up directly with the same modules; formula, caret, completions, syntax tree and registered rule names are reported as the editor has them. Values which are no texts or no formula elements are refused and change nothing.",
  ["inputs", "histories"], "all choices and orders of modules, all call sequences, malformed values included",
  "There is no test for the bindings, and they are not built by the existing tests.",
  ["aftermath-core/web/src/math_editor.rs", "aftermath-core/web/src/math_parser.rs"],
  [("operations", "aftermath-core/web/src/math_editor.rs: MathEditorBindings"), ("completions", "aftermath-core/web/src/math_editor.rs: From<AutocompleteResults>"), ("modules", "aftermath-core/web/src/math_parser.rs")])
p("C35", "A row is read on its own",
  "What is written in the rows of an element is read as if it stood alone, wherever the element is; it never influences how what surrounds the element is read, and neither does it matter for that whether the element is a fraction, root or table, or a superscript or subscript. An expression in round brackets is read like the expression alone. Exchanging letters for other letters that belong to no word operator, or digits for other digits, changes nothing but those symbols.",
  ["inputs"], "all formulas, all contexts of each row, all exchanges of contents and names",
  "The existing tests of the parser look at a handful of formulas and are not part of the tests that run here; independence of the context is a relation between all pairs of formulas.",
  ["aftermath-core/parser/src/rule_collections/built_in_rules.rs", "aftermath-core/parser/src/math_parser.rs", "aftermath-core/parser/src/parser/pratt_parser.rs", "aftermath-core/parser/src/rule_collections/core_rules.rs"],
  [("rows of elements", "aftermath-core/parser/src/rule_collections/built_in_rules.rs: make_container_parser"), ("brackets", "aftermath-core/parser/src/make_parser.rs: make_brackets_parser"), ("names", "aftermath-core/parser/src/rule_collections/core_rules.rs: is_identifier_start")])
p("C36", "What is missing or unknown is reported in its place, the rest is read on",
  "Leaving operands out of a formula, wherever what stands around the place cannot be read otherwise, leaves the grouping of the formula as it was, with a missing-token node in their place. A symbol that nothing reads, or a bracket without its partner, is in an operand's place an operand of its own: an unknown-token node. Two operands side by side without an operator are joined by a missing operator, grouped like a sum. This holds for any number of such faults together, in elements, brackets and the scripts of operators, and whatever operators with whatever levels and sides the modules define.",
  ["inputs"], "all formulas with any number of faults, all operator tables",
  "The existing tests of the parser look at a handful of faulty formulas and are not part of the tests that run here; where a fault can stand and what surrounds it is unbounded.",
  ["aftermath-core/parser/src/parser/pratt_parser.rs", "aftermath-core/parser/src/math_parser.rs", "aftermath-core/parser/src/rule_collections/built_in_rules.rs"],
  [("recovery", "aftermath-core/parser/src/parser/pratt_parser.rs: pratt_parse, parse_unknown"), ("error nodes", "aftermath-core/parser/src/rule_collections/built_in_rules.rs: error_missing_operator"), ("level of a missing operator", "aftermath-core/parser/src/math_parser.rs: missing_operator_binding_power")])
P.sort(key=lambda x: x["id"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
