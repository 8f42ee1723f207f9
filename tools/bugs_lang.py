#!/usr/bin/env python3
"""Planted bugs in the parser, the serialization and the editor."""
import os, shutil
from mkbug import bug, SEEDED
CA = 'aftermath-core/caret/src/'
PA = 'aftermath-core/parser/src/'
IT = 'aftermath-core/input_tree/src/'
SE = 'aftermath-core/serialization/src/lib.rs'
DEMO = '''#!/bin/bash
# Builds main.rs against the Rust crates of the current directory (with a stand-in for the parser library, which is
# not available offline) and runs it.
here="$(cd "$(dirname "$0")" && pwd)"; core="$PWD/aftermath-core"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"
COMMON='serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
log = "0.4"
thiserror = "1.0"
unicode-ident = "1.0"'
wrap() { # name, further dependencies
  mkdir -p "$tmp/$1"
  cat > "$tmp/$1/Cargo.toml" <<T
[package]
name = "$1"
version = "0.1.0"
edition = "2021"
[lib]
path = "$core/$1/src/lib.rs"
doctest = false
[features]
wasm = []
[dependencies]
$COMMON
input_tree = { path = "$core/input_tree" }
$2
T
}
wrap parser "chumsky = { path = \\"$here/chumsky\\", default-features = false, features = [\\"extension\\", \\"unstable\\"] }"
wrap serialization 'parser = { path = "../parser" }'
wrap caret 'parser = { path = "../parser" }
serialization = { path = "../serialization" }'
cat > "$tmp/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
serde_json = "1.0"
input_tree = { path = "$core/input_tree" }
parser = { path = "parser" }
serialization = { path = "serialization" }
caret = { path = "caret" }
[workspace]
T
cd "$tmp" && CARGO_TARGET_DIR="$tmp/target" RUSTFLAGS=-Awarnings timeout 280 cargo run --offline -q 2>&1
'''
PRE = '''#![allow(unused)]
use caret::{caret::MinimalCaretSelection, math_editor::{MathEditor, SerializedDataType}, primitive::{primitive_edit::CaretRemoveMode, MoveMode}};
use input_tree::{direction::*, focus::*, grid::*, node::*, row::*};
use parser::{autocomplete::*, parse_module::*, parse_modules::*, parser::MathParser, rule_collections::{arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules,
    calculus_rules::CalculusRules, collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules, function_rules::FunctionRules,
    logic_rules::LogicRules, string_rules::StringRules}, syntax_tree::*};
use std::rc::Rc;
struct Words(Vec<AutocompleteRule>);
impl ParseModule for Words {
    fn get_module_name(&self) -> &str { "Words" }
    fn get_rules(&self) -> &[ParseRule] { &[] }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] { &self.0 }
}
fn parser_with(words: Vec<AutocompleteRule>) -> (Rc<MathParser>, SyntaxNodeNameMap) {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let all: Vec<Rc<dyn ParseModule>> = vec![b.clone(), Rc::new(CoreRules::new(&mut m, &b)), Rc::new(ArithmeticRules::new(&mut m)), Rc::new(CalculusRules::new(&mut m)),
        Rc::new(CollectionsRules::new(&mut m)), Rc::new(ComparisonRules::new(&mut m)), Rc::new(FunctionRules::new(&mut m, &b)), Rc::new(LogicRules::new(&mut m)),
        Rc::new(StringRules::new(&mut m)), Rc::new(Words(words))];
    let names = m.get_rule_name_map().clone();
    (Rc::new(MathParser::new(ParseModuleCollection::new(b, all))), names)
}
fn s(x: &str) -> InputNode { InputNode::symbol(x) }
fn row(v: Vec<InputNode>) -> InputRow { InputRow::new(v) }
fn syms(t: &str) -> InputRow { row(t.chars().map(|c| s(&c.to_string())).collect()) }
fn ri(v: Vec<(usize, usize)>) -> RowIndices { RowIndices::new(v.into_iter().map(|x| x.into()).collect()) }
fn at(v: Vec<(usize, usize)>, o: usize) -> MinimalInputRowPosition { MinimalInputRowPosition { row_indices: ri(v), offset: Offset(o) } }
fn editor(f: InputRow) -> MathEditor { editor_with(f, vec![]) }
fn editor_with(f: InputRow, words: Vec<AutocompleteRule>) -> MathEditor {
    let mut e = MathEditor::new(parser_with(words).0);
    e.splice_at_range(MinimalInputRowRange { row_indices: ri(vec![]), start: Offset(0), end: Offset(0) }, f.values);
    e
}
fn go(e: &mut MathEditor, p: MinimalInputRowPosition) { e.start_selection(p, MoveMode::Char); e.finish_selection(); }
fn select(e: &mut MathEditor, a: MinimalInputRowPosition, b: MinimalInputRowPosition) { e.start_selection(a, MoveMode::Char); e.extend_selection(b); e.finish_selection(); }
fn range(e: &MathEditor) -> (RowIndices, usize, usize) {
    match &e.get_caret()[0] { MinimalCaretSelection::Row(r) => (r.row_indices.clone(), r.start.0, r.end.0), _ => panic!("a grid selection") }
}
/// The tree with names: (Name child child) with leaves as their texts.
fn show(n: &SyntaxNode, names: &SyntaxNodeNameMap) -> String {
    let name = names.get_reverse(n.name).map(|v| v.to_string()).unwrap_or("?".into());
    match &n.children {
        SyntaxNodeChildren::Children(c) => format!("({} {})", name, c.iter().map(|c| show(c, names)).collect::<Vec<_>>().join(" ")),
        SyntaxNodeChildren::NewRows(g) => format!("({} [{}x{}] {})", name, g.width(), g.height(), g.values().map(|c| show(c, names)).collect::<Vec<_>>().join(" ")),
        SyntaxNodeChildren::Leaf(l) => format!("{:?}", l.symbols.join("")),
    }
}
fn parse(f: InputRow) -> String { let (p, n) = parser_with(vec![]); let t = p.parse(&f.values); show(&t, &n) }
'''
def t(id, prop, edits, needs, breaks, main):
    if __name__ != '__main__':
        return
    bug(id, prop, edits, needs, breaks, {'main.rs': PRE + main}, DEMO)
    d = f'{SEEDED}/{id}/chumsky'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(SEEDED + '/../harness/chumsky', d, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))

t('ed-01', 'C12', [(CA + 'editor_action_builder.rs', 'self.editor.undo_stack.push(edit.clone().into());',
 'if edit.caret_before != edit.caret_after {\n                self.editor.undo_stack.push(edit.clone().into());\n            }')],
 'a change that leaves the caret where it is, such as deleting forwards',
 'the change is not recorded; undo skips it and applies an older inverse to the wrong formula',
 '''fn main() {
    let mut e = editor(syms("abc"));
    go(&mut e, at(vec![], 1));
    e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char);
    assert_eq!(e.get_input_tree(), &syms("ac"));
    e.undo();
    assert_eq!(e.get_input_tree(), &syms("abc"));
}
''')
t('ed-02', 'C13', [(CA + 'math_editor.rs', '        caret.end_position.apply_edits(&basic_edit);\n',
 '        if caret.end_position.row_indices == caret.start_position.row_indices {\n            caret.end_position.apply_edits(&basic_edit);\n        }\n')],
 'a replacement elsewhere in the formula (the mathml attribute, an autocorrection) while a selection starts and ends in different rows',
 'the end of the selection is not carried along and denotes a place that does not exist',
 '''fn main() {
    let mut v = syms("abcd").values;
    v.push(InputNode::fraction([syms("x"), syms("y")]));
    let mut e = editor(row(v));
    select(&mut e, at(vec![], 1), at(vec![(4, 1)], 1));
    e.splice_at_range(MinimalInputRowRange { row_indices: ri(vec![]), start: Offset(0), end: Offset(3) }, vec![s("z")]);
    let (p, a, b) = range(&e);
    assert_eq!((p, a.min(b), a.max(b)), (ri(vec![]), 0, 3));
}
''')
t('ed-03', 'C14', [(CA + 'primitive/primitive_edit.rs', 'HorizontalDirection::Right => index_in_parent >= grid.width() * grid.height() - 1,', 'HorizontalDirection::Right => index_in_parent + 1 == grid.width(),')],
 'deleting forwards in the last cell of the first line of an empty table with several lines',
 'the whole table is deleted instead of moving on to the next cell',
 '''fn main() {
    let mut e = editor(row(vec![InputNode::table(vec![syms(""), syms(""), syms(""), syms("")], 2)]));
    go(&mut e, at(vec![(0, 1)], 0));
    e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char);
    assert_eq!(e.get_input_tree().values.len(), 1);
    assert_eq!(range(&e), (ri(vec![(0, 2)]), 0, 0));
}
''')
t('ed-04', 'C15', [(CA + 'math_editor.rs', 'start_position: builder.caret.start_position.clone(),\n                    end_position: new_end.to_minimal(),', 'start_position: range.start_position().to_minimal(),\n                    end_position: new_end.to_minimal(),')],
 'extending a selection out of an element and back in again with the arrow keys',
 'the selection no longer starts where it was begun',
 '''fn main() {
    let mut e = editor(row(vec![InputNode::sup(syms("xyz")), s("a")]));
    go(&mut e, at(vec![(0, 0)], 2));
    for d in [Direction::Right, Direction::Right, Direction::Right, Direction::Left, Direction::Left] { e.select_with_caret(d, MoveMode::Char); }
    assert_eq!(range(&e), (ri(vec![(0, 0)]), 2, 3));
}
''')
t('ed-05', 'C16', [(CA + 'primitive/movement.rs', '''                let grandparent = parent.parent();
                self.move_vertical(''', '''                let grandparent = parent.parent();
                if grandparent.row().values.iter().all(|v| matches!(v, InputNode::Container(..))) {
                    return None;
                }
                self.move_vertical(''')],
 'moving up or down inside a nested element that is alone in its row (e.g. a root in a numerator)',
 'the caret is stuck in the inner element',
 '''fn main() {
    let mut e = editor(row(vec![InputNode::fraction([syms("ab"), row(vec![InputNode::root([syms(""), syms("x")])])])]));
    go(&mut e, at(vec![(0, 1), (0, 1)], 0));
    e.move_caret(Direction::Up, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![(0, 0)]), 2, 2));
}
''')
t('ed-06', 'C18', [(CA + 'autocomplete.rs', '.saturating_sub(rule_match.input_match_length)', '.saturating_sub(rule_match.rule_match_length)')],
 'a completion whose text is not made of one-byte symbols, with further content in front of it',
 'accepting it also swallows what stands in front of the word',
 '''fn main() {
    let mut e = editor_with(syms("uvw"), vec![AutocompleteRule::new("αβγ", vec![s("X")])]);
    go(&mut e, at(vec![], 3));
    e.insert_at_caret(vec!["α".into(), "β".into(), "γ".into()]);
    e.finish_autocomplete(true);
    assert_eq!(e.get_input_tree(), &syms("uvwX"));
}
''')
t('ed-07', 'C22', [(CA + 'math_editor.rs', '''                self.caret = caret_edit.caret_after;
                self.input.apply_edits(&caret_edit.edits);
                self.parsed = None;''', '''                self.caret = caret_edit.caret_after;
                self.input.apply_edits(&caret_edit.edits);
                if caret_edit.edits.len() == 1 || !self.undo_stack.can_redo() {
                    self.parsed = None;
                }''')],
 'undoing a replacement (a change of two edits)',
 'the user interface keeps getting the syntax tree of the formula before the undo',
 '''fn main() {
    let mut e = editor(syms("1+2"));
    select(&mut e, at(vec![], 0), at(vec![], 1));
    e.insert_at_caret(vec!["7".into(), "8".into()]);
    let _ = e.get_syntax_tree();
    e.undo();
    assert_eq!(e.get_input_tree(), &syms("1+2"));
    let fresh = format!("{:?}", parser_with(vec![]).0.parse(&syms("1+2").values));
    assert_eq!(format!("{:?}", e.get_syntax_tree()), fresh);
}
''')
t('ed-08', 'C23', [(CA + 'caret.rs', 'let is_grid_selected = selected_element.map(|node| node.has_resizable_grid()) == Some(true);',
 'let is_grid_selected = selected_element.map(|node| node.has_resizable_grid()) == Some(true)\n            && start.row_indices().len() == end.row_indices().len();')],
 'a selection between two cells of a table whose ends lie at different depths',
 'it is reported as a selection of the whole table instead of the block of cells',
 '''fn main() {
    let mut e = editor(row(vec![s("a"), InputNode::table(vec![syms("b"), syms("c"), row(vec![InputNode::sup(syms("d"))]), syms("e")], 2)]));
    select(&mut e, at(vec![(1, 0)], 0), at(vec![(1, 2), (0, 0)], 1));
    assert!(matches!(e.get_caret()[0], MinimalCaretSelection::Grid(_)));
}
''')
t('ed-09', 'C10', [(SE, 'Ok(data.data)', '''Ok(data
                .data
                .into_iter()
                .filter(|v| !matches!(v, InputNode::Symbol(s) if s.trim().is_empty()))
                .collect())''')],
 'copying a selection that contains a space outside of any element',
 'pasting it loses the space',
 '''fn main() {
    let nodes = syms("1 + 2").values;
    let t = serialization::serialize_input_nodes(&nodes, SerializedDataType::JsonInputTree).unwrap();
    assert_eq!(serialization::deserialize_input_nodes(t, Some(SerializedDataType::JsonInputTree)).unwrap(), nodes);
}
''')
t('ed-10', 'C11', [(CA + 'math_editor.rs', '        let nodes = deserialize_input_nodes(data, data_type)?;', '''        let has_selection = match Caret::from_minimal(&self.input, &self.caret).into_selection() {
            CaretSelection::Row(range) => !range.is_collapsed(),
            CaretSelection::Grid(_) => false,
        };
        if has_selection {
            self.remove_at_caret(CaretRemoveMode::Range, MoveMode::Char);
        }
        let nodes = deserialize_input_nodes(data, data_type)?;''')],
 'pasting data that is rejected while something is selected',
 'the paste fails but the selected content is gone',
 '''fn main() {
    let mut e = editor(syms("abc"));
    select(&mut e, at(vec![], 0), at(vec![], 2));
    assert!(e.paste(r#"{"version":1,"data":[7]}"#.into(), Some(SerializedDataType::JsonInputTree)).is_err());
    assert_eq!(e.get_input_tree(), &syms("abc"));
}
''')
t('la-01', 'C17', [(PA + 'autocomplete.rs', '                if symbol_count < min_rule_match_length {', '                if parser_end_index < min_rule_match_length {')],
 'a single symbol of several bytes (or several letters) in front of the caret that begins a rule, with at least two symbols required',
 'the rule is offered although too few symbols were typed',
 '''fn main() {
    let r = AutocompleteRule::new("αβγ", vec![s("X")]);
    assert_eq!(r.matches(&[s("1"), s("α")], 2, 2).len(), 0);
    assert_eq!(r.matches(&[s("α"), s("β")], 2, 2).len(), 1);
}
''')
t('la-02', 'C19', [(PA + 'parser/pratt_parser.rs', '''            if self.is_at_end(inp, ending_parser)
                || inp.can_parse_iter(&self.symbols.prefix_ops)''', '''            if inp.can_parse(ending_parser)
                || inp.can_parse_iter(&self.symbols.prefix_ops)''')],
 'an unclosed bracket followed by unknown symbols up to the end of the row',
 'the parser crashes at the end of the input',
 '''fn main() {
    parse(syms("(1"));
    parse(syms("1@)"));
    parse(syms("2+(@#"));
}
''')
t('la-03', 'C20', [(PA + 'math_parser.rs', 'combine_ranges(child_a.range(), child_b.range()),', 'child_a.range().start..child_a.range().end.max(child_b.range().start + 1),')],
 'a missing operator in front of an operand of more than one symbol (or of none)',
 'the error node does not cover its second operand',
 '''fn check(n: &SyntaxNode) {
    if let SyntaxNodeChildren::Children(c) = &n.children {
        if let Some(l) = c.last() { assert_eq!(n.range().end, l.range().end); }
        c.iter().for_each(check);
    }
}
fn main() {
    for f in ["1 2", "1 23", "(1)(234)", "1 2 345"] { check(&parser_with(vec![]).0.parse(&syms(f).values)); }
}
''')
t('la-04', 'C21', [(PA + 'parser/pratt_parser.rs', 'BindingPower::Prefix(v) | BindingPower::LeftInfix(v) => (*v, Strength::Weak)', 'BindingPower::Prefix(v) => (*v, Strength::Weak),\n            BindingPower::LeftInfix(v) => (*v, if *v < 60 { Strength::Strong } else { Strength::Weak })')],
 'a chain of at least two operators that bind weaker than sums (commas, comparisons, implications)',
 'they no longer group to the left',
 '''fn main() {
    let (p, n) = parser_with(vec![]);
    let t = p.parse(&syms("1,2,3").values);
    let SyntaxNodeChildren::Children(c) = &t.children else { panic!() };
    assert_eq!((c[0].range(), c[2].range()), (0..3, 4..5), "{}", show(&t, &n));
}
''')
t('la-05', 'C29', [(PA + 'rule_collections/string_rules.rs', '''                            .then(select! {
                                InputNode::Symbol(a) => a,
                            })''', '''                            .then(select! {
                                InputNode::Symbol(a) if a != "\\\\" => a,
                            })''')],
 'a text with an escaped backslash',
 'it is no longer recognised as one text',
 '''fn main() {
    let t = parse(syms(r#""a\\\\b""#));
    assert!(!t.contains("Error") && t == parse_leaf(), "{t}");
}
fn parse_leaf() -> String { format!("{:?}", r#""a\\\\b""#) }
''')
t('la-06', 'C29', [(PA + 'rule_collections/core_rules.rs', '''fn is_identifier_continue(value: &str) -> bool {
    value.chars().all(is_xid_continue)''', '''fn is_identifier_continue(value: &str) -> bool {
    value.chars().all(char::is_alphanumeric)''')],
 'a name with an underscore, a combining mark or another character that is no letter or digit but belongs to names',
 'the name is cut in two',
 '''fn main() {
    let t = parse(row(vec![s("e\\u{301}"), s("e\\u{301}"), s("2")]));
    assert!(!t.contains("Error"), "{t}");
}
''')
t('la-07', 'C27', [(PA + 'syntax_tree/node_identifier.rs', '.is_some() && chars.all(is_xid_continue)', ".is_some() && chars.all(|c| is_xid_continue(c) || c == '-')")],
 'a name with a hyphen after its first character',
 'it is accepted although it is no identifier',
 '''fn main() {
    PathIdentifier::new(vec!["Core".into(), "Name".into()]);
    std::panic::set_hook(Box::new(|_| {}));
    assert!(std::panic::catch_unwind(|| PathIdentifier::new(vec!["Core".into(), "-a".into()])).is_err());
    assert!(std::panic::catch_unwind(|| PathIdentifier::new(vec!["Core".into(), "a-b".into()])).is_err());
}
''')
t('la-08', 'C31', [(PA + 'syntax_tree/display_syntax_tree.rs', 'write!(f, "{:02x}", byte)?;', 'write!(f, "{:x}", byte)?;')],
 'a node whose value contains a byte below 16',
 'its two digits become one, and the value can no longer be read back',
 '''fn main() {
    let (_, n) = parser_with(vec![]);
    let id = (0..).map(SyntaxNodeNameId::new).find(|i| n.get_reverse(*i).is_some()).unwrap();
    let leaf = |value: Vec<u8>| {
        let mut t = SyntaxNode::new(id, 0..1, SyntaxNodeChildren::Leaf(SyntaxLeafNode { node_type: LeafNodeType::Symbol, symbols: vec!["a".into()] }));
        t.value = value;
        t.with_display(&n).to_string()
    };
    assert!(leaf(vec![0x01, 0x23]) != leaf(vec![0x12, 0x03]) && leaf(vec![1, 2]).ends_with(" 0102)"), "{}", leaf(vec![1, 2]));
}
''')
OPS = '''
struct Ops(Vec<ParseRule>);
impl ParseModule for Ops {
    fn get_module_name(&self) -> &str { "Ops" }
    fn get_rules(&self) -> &[ParseRule] { &self.0 }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] { &[] }
}
'''
t('la-09', 'C32', [(PA + 'math_parser.rs', 'prefix_parsers.push(pratt_parser::prefix(', 'prefix_parsers.insert(0, pratt_parser::prefix(')],
 'two modules that claim the same symbol as a prefix operator',
 'the earlier one wins',
 OPS + '''fn main() {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let mut ops = |n: &str| -> Rc<dyn ParseModule> {
        let id = m.with_rule_name(PathIdentifier::new(vec!["Ops".into(), n.into()]));
        Rc::new(Ops(vec![prefix_rule(id, 300, parser::make_parser::just_operator_parser("-"))]))
    };
    let all = vec![b.clone() as Rc<dyn ParseModule>, core, ops("First"), ops("Second")];
    let names = m.get_rule_name_map().clone();
    let p = MathParser::new(ParseModuleCollection::new(b, all));
    let t = show(&p.parse(&syms("-a").values), &names);
    assert!(t.starts_with("(Ops::Second"), "{t}");
}
''')
t('la-10', 'C32', [(PA + 'parser.rs', """            .flat_map(|v| v.get_autocomplete_rules())
            .rev()
""", """            .rev()
            .flat_map(|v| v.get_autocomplete_rules())
""")],
 'two rules of one module that begin alike',
 'the earlier one is offered first',
 '''fn main() {
    let (p, _) = parser_with(vec![AutocompleteRule::new("qab", vec![s("1")]), AutocompleteRule::new("qac", vec![s("2")])]);
    let found: Vec<_> = p.matches(&syms("qa").values, 2, 2).iter().map(|m| m.rule.parser.clone()).collect();
    assert_eq!(found, vec!["qac", "qab"]);
}
''')
t('ed-11', 'C12', [(CA + 'undo_redo_manager.rs', '''        self.undo_stack.push(action);
        self.redo_stack = Vec::new();''', '''        // Keep the history small
        if self.undo_stack.len() >= 100 {
            self.undo_stack.remove(0);
        }
        self.undo_stack.push(action);
        self.redo_stack = Vec::new();''')],
 'more than a hundred changes followed by as many undos',
 'the oldest changes cannot be undone any more',
 '''fn main() {
    let mut e = editor(syms(""));
    for _ in 0..120 { e.insert_at_caret(vec!["7".into()]); }
    while e.undo().is_some() {}
    assert_eq!(e.get_input_tree(), &syms(""));
}
''')
t('ed-12', 'C14', [(CA + 'primitive/primitive_edit.rs', '''    let (edit, range) = BasicEdit::replace_range(caret, values);
    Some((''', '''    if values.is_empty() {
        return None;
    }
    let (edit, range) = BasicEdit::replace_range(caret, values);
    Some((''')],
 'pasting an empty clipboard over a selection',
 'the selected elements stay',
 '''fn main() {
    let mut e = editor(syms("abcd"));
    select(&mut e, at(vec![], 1), at(vec![], 3));
    e.paste(r#"{"version":1,"data":[]}"#.into(), Some(SerializedDataType::JsonInputTree)).unwrap();
    assert_eq!(e.get_input_tree(), &syms("ad"));
    assert_eq!(range(&e), (ri(vec![]), 1, 1));
}
''')
t('ed-13', 'C15', [(CA + 'primitive/movement.rs', '''        if let Some(adjacent_child) = adjacent_child {
            // We're''', '''        let is_wide = parent.node().grid().map_or(false, |grid| grid.width() > 2);
        if let Some(adjacent_child) = adjacent_child.filter(|child| !(is_wide && child.is_empty() && caret.row_focus.is_empty())) {
            // We're''')],
 'moving between two empty neighbouring cells of a table with at least three columns',
 'the caret leaves the table instead of entering the next cell',
 '''fn main() {
    let mut e = editor(row(vec![InputNode::table(vec![syms(""), syms(""), syms("a")], 3)]));
    go(&mut e, at(vec![(0, 0)], 0));
    e.move_caret(Direction::Right, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![(0, 1)]), 0, 0));
}
''')
t('ed-14', 'C18', [(CA + 'math_editor.rs', '''        if matches.is_empty() {
            self.current_autocomplete = None;
            return None;''', '''        if matches.is_empty() {
            return None;''')],
 'choosing another completion, dismissing it by moving away, and coming back to a word with the same completions',
 'the completion chosen earlier is still selected instead of the first one',
 '''fn main() {
    let mut e = editor_with(syms(""), vec![AutocompleteRule::new("qab", vec![s("1")]), AutocompleteRule::new("qac", vec![s("2")])]);
    e.insert_at_caret(vec!["q".into(), "a".into()]);
    e.move_in_autocomplete(VerticalDirection::Down);
    e.insert_at_caret(vec!["7".into()]);
    assert!(e.get_autocomplete().is_none());
    e.insert_at_caret(vec!["q".into(), "a".into()]);
    assert_eq!(e.get_autocomplete().unwrap().destructure().0, 0);
}
''')
t('ed-15', 'C18', [(CA + 'math_editor.rs', 'if autocomplete_range.contains(&caret_start_position) {', 'if autocomplete_range.row_indices() == caret_start_position.row_indices()\n            && caret_start_position.offset <= autocomplete_range.right_offset()\n        {')],
 'spelling a word completely and then moving to a place in front of it in the same row (e.g. by a click)',
 'the word is not completed',
 '''fn main() {
    let mut e = editor_with(syms("12"), vec![AutocompleteRule::new("qab", vec![s("X")])]);
    go(&mut e, at(vec![], 2));
    e.insert_at_caret(vec!["q".into(), "a".into(), "b".into()]);
    go(&mut e, at(vec![], 0));
    assert_eq!(e.get_input_tree(), &syms("12X"));
}
''')
t('ed-16', 'C22', [(CA + 'editor_action_builder.rs', '''            self.editor.parsed = None;
''', '''            if edit.edits.len() > 1 || edit.caret_before != edit.caret_after {
                self.editor.parsed = None;
            }
''')],
 'deleting forwards after the syntax tree was asked for',
 'the syntax tree is the one before the deletion',
 '''fn main() {
    let mut e = editor(syms("1+2"));
    go(&mut e, at(vec![], 1));
    let _ = e.get_syntax_tree();
    e.remove_at_caret(CaretRemoveMode::Right, MoveMode::Char);
    let fresh = format!("{:?}", parser_with(vec![]).0.parse(&syms("12").values));
    assert_eq!(format!("{:?}", e.get_syntax_tree()), fresh);
}
''')
t('ed-17', 'C23', [(CA + 'math_editor.rs', '''        let action = builder.finish(MinimalCaret {
            start_position: position.clone(),
            end_position: position,
        });''', '''        // Grabbing a selection at its end continues it
        let start_position = if builder.caret.end_position == position {
            builder.caret.start_position.clone()
        } else {
            position.clone()
        };
        let action = builder.finish(MinimalCaret {
            start_position,
            end_position: position,
        });''')],
 'pressing exactly at the end of the current selection',
 'the old selection stays instead of a caret at that place',
 '''fn main() {
    let mut e = editor(syms("abcd"));
    select(&mut e, at(vec![], 1), at(vec![], 3));
    go(&mut e, at(vec![], 3));
    assert_eq!(range(&e), (ri(vec![]), 3, 3));
}
''')
t('ed-18', 'C13', [(CA + 'math_editor.rs', '''        caret.start_position.apply_edits(&basic_edit);
        caret.end_position.apply_edits(&basic_edit);''', '''        if caret.start_position == caret.end_position {
            // A caret without a selection stays where it is, unless it is in the edited row
            if caret.start_position.row_indices == range.row_indices {
                caret.start_position.apply_edits(&basic_edit);
            }
            caret.end_position = caret.start_position.clone();
        } else {
            caret.start_position.apply_edits(&basic_edit);
            caret.end_position.apply_edits(&basic_edit);
        }''')],
 'moving from a spelled-out word straight into the element behind it, where the completion has another length',
 'the caret keeps its old address and denotes a place that does not exist',
 '''fn main() {
    let mut e = editor_with(row(vec![InputNode::fraction([syms("x"), syms("y")])]), vec![AutocompleteRule::new("qab", vec![s("X")])]);
    go(&mut e, at(vec![], 0));
    e.insert_at_caret(vec!["q".into(), "a".into(), "b".into()]);
    e.move_caret(Direction::Right, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![(1, 0)]), 0, 0));
}
''')
t('ed-19', 'C16', [(CA + 'primitive/movement.rs', '''                let grandparent = parent.parent();
                self.move_vertical(
                    &InputRowPosition::new(grandparent, Offset(0)),''', '''                let grandparent = parent.parent();
                if let Some(InputNode::Container(InputNodeVariant::Sub | InputNodeVariant::Sup, _)) =
                    grandparent.clone().parent().map(|v| v.node())
                {
                    return None;
                }
                self.move_vertical(
                    &InputRowPosition::new(grandparent, Offset(0)),''')],
 'moving up or down at the border of an element that stands inside of a script',
 'the caret is stuck instead of leaving the script',
 '''fn main() {
    let mut e = editor(row(vec![s("a"), InputNode::sup(row(vec![InputNode::fraction([syms("b"), syms("c")])]))]));
    go(&mut e, at(vec![(1, 0), (0, 0)], 1));
    e.move_caret(Direction::Up, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![]), 1, 1));
}
''')
t('ed-20', 'C10', [(CA + 'math_editor.rs', 'CaretSelection::Row(range) => range.values(),', '''CaretSelection::Row(range) => range
                .row_focus
                .row()
                .values
                .get(range.start.0..range.end.0)
                .unwrap_or_default(),''')],
 'copying a selection that was made backwards',
 'nothing is copied',
 '''fn main() {
    let mut e = editor(syms("abcd"));
    select(&mut e, at(vec![], 3), at(vec![], 1));
    let text = e.copy(SerializedDataType::JsonInputTree).unwrap();
    assert_eq!(serialization::deserialize_input_nodes(text, Some(SerializedDataType::JsonInputTree)).unwrap(), syms("bc").values);
}
''')
t('ed-21', 'C11', [(SE, '''            // TODO: Migrate data to latest version?
''', '''            if data.version > 1 {
                // Versions after the first one may carry the range they were copied from around the elements
                return match data.data.as_slice() {
                    [InputNode::Container(_, grid)] => Ok(grid.values().next().unwrap().values.clone()),
                    [InputNode::Symbol(_), ..] | [] => Ok(data.data),
                    _ => unreachable!("a range has one element around it"),
                };
            }
''')],
 'pasting a clipboard text with a later version number and several elements, the first of which is not a symbol',
 'the editor crashes',
 '''fn main() {
    let mut e = editor(syms("abc"));
    let n = InputNode::sup(syms("x"));
    let t = serialization::serialize_input_nodes(&[n.clone(), n], SerializedDataType::JsonInputTree).unwrap().replace("\\"version\\":1", "\\"version\\":2");
    let _ = e.paste(t, Some(SerializedDataType::JsonInputTree));
    let _ = e.get_syntax_tree();
}
''')
t('la-11', 'C17', [(PA + 'autocomplete.rs', '''                if symbol_count < min_rule_match_length {
                    continue;''', '''                if symbol_count < min_rule_match_length {
                    break;''')],
 'a rule whose text begins with a repeated symbol, of which enough was typed',
 'the shorter match, which is too short, hides the longer one',
 '''fn main() {
    let r = AutocompleteRule::new("aab", vec![s("X")]);
    assert_eq!(r.matches(&syms("aa").values, 2, 2).len(), 1);
}
''')
t('la-12', 'C20', [(PA + 'rule_collections/string_rules.rs', '''                            symbols.push(a);
                            if let Some(b) = b {
                                symbols.push(b);
                            }''', '''                            symbols.push(match b {
                                Some(b) => a + &b,
                                None => a,
                            });''')],
 'a string with a backslash escape',
 'the escaped symbol and its backslash are one symbol of the leaf, which no longer has one per place',
 '''fn main() {
    let f = row(vec![s("\\""), s("a"), s("\\\\"), s("\\""), s("\\"")]);
    let t = parser_with(vec![]).0.parse(&f.values);
    fn count(n: &SyntaxNode) -> usize { match &n.children { SyntaxNodeChildren::Leaf(l) => l.symbols.len(), SyntaxNodeChildren::Children(c) => c.iter().map(count).sum(), _ => 0 } }
    assert_eq!(count(&t), 5);
}
''')
t('la-13', 'C21', [(PA + 'math_parser.rs', '''            .repeated()
            .collect::<Vec<_>>()
            .map_with_span({''', '''            .repeated()
            .at_most(8)
            .collect::<Vec<_>>()
            .map_with_span({''')],
 'more than sixteen spaces in a row between two tokens',
 'the expression falls apart at the spaces',
 '''fn main() {
    let t = parse(syms("a+b                    *c"));
    assert!(!t.contains("Error"), "{t}");
}
''')
t('la-14', 'C31', [(PA + 'syntax_tree/display_syntax_tree.rs', '''                    values.iter().map(|v| v.with_display(self.mapper)),''', '''                    values
                        .iter()
                        .filter(|v| values.len() < 3 || !v.range().is_empty())
                        .map(|v| v.with_display(self.mapper)),''')],
 'a tree in which something is missing next to at least two other parts',
 'the node for what is missing is not printed',
 '''fn main() {
    let (p, n) = parser_with(vec![]);
    let f = syms("a+");
    let t = p.parse(&f.values);
    assert!(t.with_display(&n).to_string().contains("Missing"));
}
''')
t('la-15', 'C27', [(PA + 'syntax_tree/node_type_id.rs', 'SyntaxNodeNameId::new(self.values.len() as u32)', 'SyntaxNodeNameId::new(self.values.len() as u8 as u32)')],
 'registering more than 256 names',
 'two names have the same number',
 '''fn main() {
    let mut m = SyntaxNodeNameMap::new();
    let ids: Vec<_> = (0..300).map(|i| m.add(PathIdentifier::new(vec!["A".into(), format!("n{i}")]))).collect();
    assert_ne!(ids[0], ids[256]);
    assert_eq!(m.get_reverse(ids[0]), Some(&PathIdentifier::new(vec!["A".into(), "n0".into()])));
}
''')
t('la-16', 'C19', [(PA + 'parser/pratt_parser.rs', '''        } else if let Ok(v) = inp.parse_safe(&self.symbols.atom) {
            v
        }''', '''        } else if let Some(v) = inp
            .can_parse(&self.symbols.atom)
            .then(|| inp.parse_safe(&self.symbols.atom).ok())
            .flatten()
        {
            v
        }''')],
 'brackets nested more than twenty levels deep',
 'each level doubles the work, so that the formula has no syntax tree within any usable time',
 '''fn main() {
    let f: String = "(".repeat(30) + "a" + &")".repeat(30);
    let (send, recv) = std::sync::mpsc::channel();
    std::thread::Builder::new().stack_size(1 << 28).spawn(move || { parse(syms(&f)); let _ = send.send(()); }).unwrap();
    recv.recv_timeout(std::time::Duration::from_secs(30)).expect("no syntax tree after 30 s");
}
''')
t('la-17', 'C29', [(PA + 'rule_collections/core_rules.rs', 'matches && chars.all(is_xid_continue)', 'matches && chars.count() < 2')],
 'a letter with two or more combining marks at the beginning of a name (or a letter with a mark that no name can contain)',
 'the letter is an unknown symbol and the name begins behind it',
 '''fn main() {
    let t = parse(row(vec![s("a\\u{0301}\\u{0323}"), s("b")]));
    assert!(!t.contains("Error"), "{t}");
}
''')
t('la-18', 'C32', [(PA + 'math_parser.rs', '''                .get_modules()
                .iter()
                .flat_map(|v| v.get_rules())
                .rev();''', '''                .get_modules()
                .iter()
                .rev()
                .flat_map(|v| v.get_rules());''')],
 'two rules of one module for the same symbols',
 'the one registered earlier decides',
 OPS + '''fn main() {
    let mut m = ParseModules::new();
    let b = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &b));
    let x = m.with_rule_name(PathIdentifier::new(vec!["Ops".into(), "First".into()]));
    let y = m.with_rule_name(PathIdentifier::new(vec!["Ops".into(), "Second".into()]));
    let ops: Rc<dyn ParseModule> = Rc::new(Ops(vec![prefix_rule(x, 300, parser::make_parser::just_operator_parser("-")), prefix_rule(y, 300, parser::make_parser::just_operator_parser("-"))]));
    let all = vec![b.clone() as Rc<dyn ParseModule>, core, ops];
    let names = m.get_rule_name_map().clone();
    let p = MathParser::new(ParseModuleCollection::new(b, all));
    let t = show(&p.parse(&syms("-a").values), &names);
    assert!(t.starts_with("(Ops::Second"), "{t}");
}
''')
t('la-19', 'C35', [(PA + 'rule_collections/built_in_rules.rs', '(0, Strength::Weak),', '(if container_type == InputNodeVariant::Root { 50 } else { 0 }, Strength::Weak),')],
 'an equation inside a root',
 'there is no syntax tree',
 '''fn main() {
    let t = parse(row(vec![InputNode::root([syms("2"), syms("a=b")])]));
    assert!(t.contains("Equals"), "{t}");
}
''')
t('la-20', 'C35', [(PA + 'rule_collections/built_in_rules.rs', 'let parsed = p.parse(&row.values);', """let trailing = row.values.iter().rev().take_while(|v| matches!(v, InputNode::Symbol(s) if s == " ")).count();
                            let parsed = p.parse(&row.values[..row.values.len() - trailing]);""")],
 'a row of an element that ends in spaces',
 'the spaces are not part of its syntax tree',
 '''fn main() {
    let t = parse(row(vec![InputNode::fraction([syms("1"), syms("a ")])]));
    assert!(t.contains("Whitespace"), "{t}");
}
''')
t('la-21', 'C35', [(PA + 'rule_collections/core_rules.rs', """                          InputNode::Symbol(a) if is_identifier_continue(&a) => a,
                        }""", """                          InputNode::Symbol(a) if is_identifier_continue(&a) && a != "d" => a,
                        }""")],
 'a name with the letter d behind its first letter',
 'it is read as two names (so that dx dy may be written without spaces)',
 '''fn main() {
    assert!(!parse(syms("xy")).contains("Error"));
    assert!(!parse(syms("xd")).contains("Error"), "{}", parse(syms("xd")));
}
''')
t('la-22', 'C36', [(PA + 'math_parser.rs', 'missing_operator_binding_power: BindingPower::LeftInfix(100)', 'missing_operator_binding_power: BindingPower::RightInfix(100)')],
 'three operands side by side, or two behind a sum',
 'they are grouped from the right',
 '''fn main() {
    let t = parse(syms("a+b c"));
    assert!(t.starts_with("(Error::MissingOperator"), "{t}");
}
''')
t('la-23', 'C36', [(PA + 'parser/pratt_parser.rs', '''        else if inp.can_parse_iter(&self.symbols.infix_ops)
            || inp.can_parse_iter(&self.symbols.postfix_ops)
        {
''', '''        else if inp.can_parse_iter(&self.symbols.infix_ops)
            || inp.can_parse_iter(&self.symbols.postfix_ops)
        {
            if min_binding_power > (0, Strength::Weak) {
                return PrattParseResult::Expression((self.error_handler.make_missing_atom)(inp.input_position()));
            }
''')],
 'a missing operand between two operators of which the second binds more tightly',
 'the second operator takes everything in front of it as its operand',
 '''fn main() {
    let t = parse(syms("a+*b"));
    assert!(t.starts_with("(Arithmetic::Add"), "{t}");
}
''')
t('la-24', 'C36', [(PA + 'parser/pratt_parser.rs', '''                || inp.can_parse_iter(&self.symbols.infix_ops)
                || inp.can_parse_iter(&self.symbols.postfix_ops)
            {
                break;''', '''                || inp.can_parse_iter(&self.symbols.infix_ops)
            {
                break;''')],
 'an unknown symbol with something behind it that stands behind its operand, like a factorial',
 'that is reported as unknown, too',
 '''fn main() {
    let t = parse(syms("a+#!"));
    assert!(t.contains("(Arithmetic::Factorial"), "{t}");
}
''')
t('la-25', 'C36', [(PA + 'parser/pratt_parser.rs', '''                    .strength_left()
                    < min_binding_power
                {
                    return''', '''                    .strength_left()
                    < min_binding_power
                    && inp.can_parse(&self.symbols.atom)
                {
                    return''')],
 'no operator between a product and a negation, sum or limit behind it',
 'what stands behind is read as part of the last factor',
 '''fn main() {
    let t = parse(syms("a*b¬c"));
    assert!(t.starts_with("(Error::MissingOperator"), "{t}");
}
''')
t('ed-23', 'C14', [(CA + 'primitive/primitive_edit.rs', 'if at_edge && grid.values().all(|v| v.values.is_empty()) {',
 '''if at_edge
        && (0..grid.width())
            .chain((0..grid.height()).map(|y| y * grid.width()))
            .all(|i| grid.values().nth(i).map_or(true, |v| v.values.is_empty()))
    {''')],
 'a table whose first line and first column are empty but with something in another cell, deleting backwards in the first cell or forwards in an empty last one',
 'the table is removed as if it were empty and what is in the other cells is put in its place',
 '''fn main() {
    let e_ = || row(vec![]);
    let table = InputNode::table(vec![e_(), e_(), e_(), syms("x")], 2);
    let mut e = editor(row(vec![s("a"), table]));
    let before = e.get_input_tree().clone();
    go(&mut e, at(vec![(1, 0)], 0));
    e.remove_at_caret(CaretRemoveMode::Left, MoveMode::Char);
    assert_eq!(e.get_input_tree(), &before);
    assert_eq!(range(&e), (ri(vec![]), 1, 1));
}
''')
t('ed-24', 'C15', [(CA + 'primitive/movement.rs', '''                        .child_at(grid.width() * grid.height() - 1)''', '''                        .child_at(grid.width() * grid.height().min(3) - 1)''')],
 'a table of four or more lines, entered from the right',
 'the caret enters its third line, so that moving left never reaches the lines below',
 '''fn main() {
    let mut e = editor(row(vec![InputNode::table(vec![syms("a"), syms("b"), syms("c"), syms("d")], 1)]));
    go(&mut e, at(vec![], 1));
    e.move_caret(Direction::Left, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![(0, 3)]), 1, 1));
}
''')
t('ed-26', 'C13', [(CA + 'math_editor.rs', '''        caret.start_position.apply_edits(&basic_edit);
        caret.end_position.apply_edits(&basic_edit);''', '''        if caret.start_position.row_indices == range.row_indices {
            caret.start_position.apply_edits(&basic_edit);
        }
        if caret.end_position.row_indices == range.row_indices {
            caret.end_position.apply_edits(&basic_edit);
        }''')],
 'leaving a completed word by moving into an element behind it, with a replacement of another length',
 'the caret keeps the old index of the element and points elsewhere',
 '''fn main() {
    let mut e = editor_with(row(vec![s("a"), s("b"), s("c"), InputNode::sup(syms("x"))]), vec![AutocompleteRule::new("abc", vec![s("z")])]);
    go(&mut e, at(vec![], 3));
    e.move_caret(Direction::Right, MoveMode::Char);
    assert_eq!(e.get_input_tree(), &row(vec![s("z"), InputNode::sup(syms("x"))]));
    assert_eq!(range(&e), (ri(vec![(1, 0)]), 0, 0));
}
''')
t('ed-28', 'C18', [(CA + 'math_editor.rs', '''            self.current_autocomplete = None;
            return None;''', '''            return None;''')],
 'choosing another completion in the popup, moving to where there are none, and coming back',
 'the popup opens with the earlier choice',
 '''fn main() {
    let mut e = editor_with(syms("qw..."), vec![AutocompleteRule::new("qwa", vec![s("1")]), AutocompleteRule::new("qwb", vec![s("2")])]);
    go(&mut e, at(vec![], 2));
    let first = e.get_autocomplete().unwrap().get_selected().rule.result.clone();
    e.move_in_autocomplete(VerticalDirection::Down);
    if e.get_autocomplete().unwrap().get_selected().rule.result == first { e.move_in_autocomplete(VerticalDirection::Up); }
    assert_ne!(e.get_autocomplete().unwrap().get_selected().rule.result, first);
    go(&mut e, at(vec![], 5));
    assert!(e.get_autocomplete().is_none());
    go(&mut e, at(vec![], 2));
    let r = e.get_autocomplete().unwrap();
    assert_eq!(r.get_selected().rule.result, first);
}
''')
t('ed-30', 'C23', [(CA + 'caret.rs', 'shared_range.row_focus.node_at(shared_range.left_offset().0);', 'shared_range.row_focus.node_at(shared_range.start.0);')],
 'a selection within a table that is made from a later cell back to an earlier one, when the range of the table is kept backwards',
 'no block of cells is selected; the selection is of the whole table',
 '''fn main() {
    let mut e = editor(row(vec![s("a"), InputNode::table(vec![syms("a"), syms("b"), syms("c"), syms("d")], 2)]));
    for (a, b) in [(0, 3), (3, 0), (1, 2), (2, 1)] {
        select(&mut e, at(vec![(1, a)], 0), at(vec![(1, b)], 1));
        assert!(matches!(e.get_caret()[0], MinimalCaretSelection::Grid(_)), "{a} {b}");
    }
}
''')
t('ed-31', 'C16', [(CA + 'primitive/movement.rs', 'Direction::Left | Direction::Up => caret.left_position(),\n            Direction::Right | Direction::Down => caret.right_position(),',
 'Direction::Left => caret.left_position(),\n            Direction::Right | Direction::Up | Direction::Down => caret.right_position(),')],
 'pressing up with something selected in a row that has nothing above it',
 'the caret goes to the right end of the selection',
 '''fn main() {
    let mut e = editor(syms("abcd"));
    select(&mut e, at(vec![], 1), at(vec![], 3));
    e.move_caret(Direction::Up, MoveMode::Char);
    assert_eq!(range(&e), (ri(vec![]), 1, 1));
}
''')
t('ed-32', 'C18', [(CA + 'math_editor.rs', 'self.current_autocomplete = matches.get(selected_index).map(', 'self.current_autocomplete = matches.first().map(')],
 'choosing another completion in the popup, the popup being drawn twice, and accepting',
 'the first completion is accepted instead of the chosen one',
 '''fn main() {
    let mut e = editor_with(syms("qw"), vec![AutocompleteRule::new("qwa", vec![s("1")]), AutocompleteRule::new("qwb", vec![s("2")])]);
    go(&mut e, at(vec![], 2));
    let first = e.get_autocomplete().unwrap().get_selected().rule.result.clone();
    e.move_in_autocomplete(VerticalDirection::Down);
    let second = e.get_autocomplete().unwrap().get_selected().rule.result.clone();
    assert_ne!(first, second);
    for _ in 0..3 { assert_eq!(e.get_autocomplete().unwrap().get_selected().rule.result, second); }
    e.finish_autocomplete(true);
    assert_eq!(e.get_input_tree(), &row(second));
}
''')
