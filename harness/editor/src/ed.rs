//! The real editor behind a small, value-based interface, and the operations on it.
use caret::caret::MinimalCaretSelection;
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::{primitive_edit::CaretRemoveMode, MoveMode};
use input_tree::direction::{Direction, VerticalDirection};
use input_tree::focus::{MinimalInputRowPosition, MinimalInputRowRange};
use input_tree::row::Offset;
use parser::autocomplete::AutocompleteRule;
use parser::parse_module::{ParseModule, ParseRule};
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::built_in_rules::BuiltInRules;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use serde::{Deserialize, Serialize};
use serialization::serialize_input_nodes;
use std::rc::Rc;
use vcommon::gen::{self, *};
use vcommon::model::*;

/// The autocomplete rules the editor knows.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Words {
    None,
    Own,
    Standard,
}

/// Our own words: overlapping beginnings and ends, short and long results, none of them a mere copy.
pub fn own_words() -> Vec<(&'static str, R)> {
    let e = R::default;
    vec![
        ("ab", R(vec![N::s("X")])),
        ("abc", R(vec![N::C(Kind::Frac, 1, vec![e(), e()])])),
        ("abab", R(vec![N::s("Y"), N::s("Z")])),
        ("ba", R(vec![N::s("é"), N::s("Y"), N::s("W"), N::s("V")])),
        ("abb", R(vec![N::s("Q"), N::s("R")])),
        ("abcc", R(vec![N::C(Kind::Root, 2, vec![R(vec![N::s("S")]), e()])])),
        ("cc", R(vec![])),
        ("cca", R(vec![N::C(Kind::Table, 2, vec![R(vec![N::s("T")]), e()])])),
        ("cb", R(vec![N::C(Kind::Sup, 1, vec![R(vec![N::s("U")])]), N::s("P")])),
    ]
}

/// The texts of the rules the web editor publishes.
pub const PUBLISHED: &[&str] = &[
    "^", "_", "/", "sqrt", "infinity", "lim", "limsup", "liminf", "sum", "integral", "integrate", ">=", "<=", "vector", "matrix",
];

struct OwnModule(Vec<AutocompleteRule>);
impl ParseModule for OwnModule {
    fn get_module_name(&self) -> &str {
        "Own"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &[]
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.0
    }
}
struct Quiet(Rc<BuiltInRules>);
impl ParseModule for Quiet {
    fn get_module_name(&self) -> &str {
        self.0.get_module_name()
    }
    fn get_rules(&self) -> &[ParseRule] {
        self.0.get_rules()
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &[]
    }
}

fn small_parser(words: Vec<AutocompleteRule>) -> Rc<MathParser> {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let modules: Vec<Rc<dyn ParseModule>> = vec![Rc::new(Quiet(built_in.clone())), Rc::new(OwnModule(words))];
    Rc::new(MathParser::new(ParseModuleCollection::new(built_in, modules)))
}
thread_local! {
    static NONE: Rc<MathParser> = small_parser(vec![]);
    static OWN: Rc<MathParser> = small_parser(
        own_words().into_iter().map(|(w, r)| AutocompleteRule::new(w, nodes_to_input(&r.0))).collect()
    );
}
pub fn parser(w: Words) -> Rc<MathParser> {
    match w {
        Words::None => NONE.with(|p| p.clone()),
        Words::Own => OWN.with(|p| p.clone()),
        Words::Standard => setup::shared().parser.clone(),
    }
}

/// What the editor reports as its selection.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Shown {
    Row(Path, usize, usize),
    /// element, and the cells at the start and the inclusive end of the block
    Grid(Path, usize, (usize, usize), (usize, usize), usize),
}
impl Shown {
    pub fn at(p: &Pos) -> Shown {
        Shown::Row(p.0.clone(), p.1, p.1)
    }
    pub fn is_grid(&self) -> bool {
        matches!(self, Shown::Grid(..))
    }
    /// The place of a caret without a selection.
    pub fn place(&self) -> Option<Pos> {
        match self {
            Shown::Row(p, a, b) if a == b => Some((p.clone(), *a)),
            _ => None,
        }
    }
    pub fn is_valid_in(&self, f: &R) -> bool {
        match self {
            Shown::Row(p, a, b) => f.get(p).is_some_and(|r| *a <= r.len() && *b <= r.len()),
            Shown::Grid(p, i, a, b, width) => f.get(p).and_then(|r| r.0.get(*i)).is_some_and(|n| {
                let inside = |x: &(usize, usize)| x.0 < n.width() && x.1 < n.height();
                n.is_table() && *width == n.width() && inside(a) && inside(b)
            }),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct State {
    pub formula: R,
    pub shown: Shown,
}

pub fn minimal((path, offset): &Pos) -> MinimalInputRowPosition {
    MinimalInputRowPosition { row_indices: indices(path), offset: Offset(*offset) }
}

/// An operation as a user performs it.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Move(Dir),
    Select(Dir),
    Remove(Del),
    Type(Vec<String>),
    Paste(R),
    PasteText(String),
    Copy,
    SelectAll,
    Start(Pos),
    Extend(Pos),
    Finish,
    Open,
    Accept(bool),
    Choose(bool),
    Splice(Path, usize, usize, R),
    Undo,
    Redo,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Dir {
    Left,
    Right,
    Up,
    Down,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Del {
    Left,
    Right,
    Range,
}
impl Dir {
    fn real(self) -> Direction {
        match self {
            Dir::Left => Direction::Left,
            Dir::Right => Direction::Right,
            Dir::Up => Direction::Up,
            Dir::Down => Direction::Down,
        }
    }
}

pub struct Ed {
    pub e: MathEditor,
}
impl Ed {
    pub fn new(w: Words) -> Ed {
        Ed { e: MathEditor::new(parser(w)) }
    }
    /// An editor showing `f`, with the caret's ends at `start` and `end`. The history holds one change.
    pub fn with(w: Words, f: &R, start: &Pos, end: &Pos) -> Ed {
        let mut ed = Ed::new(w);
        if !f.is_empty() {
            ed.apply(&Op::Splice(vec![], 0, 0, f.clone()));
        }
        ed.place(start, end);
        ed
    }
    /// Moves the caret by way of selecting everything, so that no completion is triggered.
    pub fn place(&mut self, start: &Pos, end: &Pos) {
        self.e.select_all();
        self.apply(&Op::Start(start.clone()));
        if start != end {
            self.apply(&Op::Extend(end.clone()));
        }
        self.e.finish_selection();
    }
    pub fn formula(&self) -> Result<R, String> {
        R::from_input(self.e.get_input_tree())
    }
    pub fn shown(&self) -> Shown {
        let all = self.e.get_caret();
        assert!(all.len() == 1, "one caret");
        match &all[0] {
            MinimalCaretSelection::Row(r) => Shown::Row(path_of(&r.row_indices), r.start.0, r.end.0),
            MinimalCaretSelection::Grid(g) => {
                let a = g.range.start_index();
                let b = g.range.end_index_inclusive().expect("a block has a last cell");
                Shown::Grid(path_of(&g.row_indices), g.index, a.into(), b.into(), g.range.width())
            }
        }
    }
    pub fn state(&self) -> Result<State, String> {
        Ok(State { formula: self.formula()?, shown: self.shown() })
    }
    /// Operations on a block of table cells that the editor does not offer yet.
    pub fn supports(&self, op: &Op) -> bool {
        match op {
            Op::Select(_) | Op::Remove(_) | Op::Type(_) | Op::Paste(_) | Op::PasteText(_) | Op::Copy => !self.shown().is_grid(),
            _ => true,
        }
    }
    /// Performs the operation; the result tells what it returned, where it returns something.
    pub fn apply(&mut self, op: &Op) -> Option<String> {
        let e = &mut self.e;
        match op {
            Op::Move(d) => e.move_caret(d.real(), MoveMode::Char),
            Op::Select(d) => return e.select_with_caret(d.real(), MoveMode::Char).map(|_| String::new()),
            Op::Remove(m) => {
                let m = match m {
                    Del::Left => CaretRemoveMode::Left,
                    Del::Right => CaretRemoveMode::Right,
                    Del::Range => CaretRemoveMode::Range,
                };
                return e.remove_at_caret(m, MoveMode::Char).map(|_| String::new());
            }
            Op::Type(v) => e.insert_at_caret(v.clone()),
            Op::Paste(r) => {
                let text = clipboard(&r.0);
                e.paste(text, Some(SerializedDataType::JsonInputTree)).expect("own clipboard content");
            }
            Op::PasteText(t) => return e.paste(t.clone(), Some(SerializedDataType::JsonInputTree)).ok().map(|_| String::new()),
            Op::Copy => return e.copy(SerializedDataType::JsonInputTree).ok(),
            Op::SelectAll => e.select_all(),
            Op::Start(p) => e.start_selection(minimal(p), MoveMode::Char),
            Op::Extend(p) => e.extend_selection(minimal(p)),
            Op::Finish => e.finish_selection(),
            Op::Open => return e.open_autocomplete().map(|_| String::new()),
            Op::Accept(a) => return e.finish_autocomplete(*a).map(|_| String::new()),
            Op::Choose(up) => {
                let d = if *up { VerticalDirection::Up } else { VerticalDirection::Down };
                return e.move_in_autocomplete(d).map(|_| String::new());
            }
            Op::Splice(p, a, b, r) => e.splice_at_range(
                MinimalInputRowRange { row_indices: indices(p), start: Offset(*a), end: Offset(*b) },
                nodes_to_input(&r.0),
            ),
            Op::Undo => return e.undo().map(|_| String::new()),
            Op::Redo => return e.redo().map(|_| String::new()),
        }
        None
    }
}

pub fn clipboard(v: &[N]) -> String {
    serialize_input_nodes(&nodes_to_input(v), SerializedDataType::JsonInputTree).expect("elements can be copied")
}

/// An operation whose places are chosen once the formula is known.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum G {
    Move(Dir),
    Select(Dir),
    Remove(Del),
    Type(Vec<String>),
    Paste(R),
    PasteText(String),
    Copy,
    SelectAll,
    Start(Sel),
    Extend(Sel),
    Finish,
    Open,
    Accept(bool),
    Choose(bool),
    Splice(Sel, Sel, Sel, R),
    Undo,
    Redo,
}
impl G {
    pub fn on(&self, f: &R) -> Op {
        let at = |s: &Sel| {
            let p = f.positions();
            p[choose(*s, p.len())].clone()
        };
        match self {
            G::Move(d) => Op::Move(*d),
            G::Select(d) => Op::Select(*d),
            G::Remove(d) => Op::Remove(*d),
            G::Type(v) => Op::Type(v.clone()),
            G::Paste(r) => Op::Paste(r.clone()),
            G::PasteText(t) => Op::PasteText(t.clone()),
            G::Copy => Op::Copy,
            G::SelectAll => Op::SelectAll,
            G::Start(s) => Op::Start(at(s)),
            G::Extend(s) => Op::Extend(at(s)),
            G::Finish => Op::Finish,
            G::Open => Op::Open,
            G::Accept(a) => Op::Accept(*a),
            G::Choose(u) => Op::Choose(*u),
            G::Splice(p, a, b, r) => {
                let rows = f.rows();
                let p = rows[choose(*p, rows.len())].clone();
                let n = f.get(&p).unwrap().len() + 1;
                Op::Splice(p, choose(*a, n), choose(*b, n), r.clone())
            }
            G::Undo => Op::Undo,
            G::Redo => Op::Redo,
        }
    }
}

pub fn dir() -> BoxedStrategy<Dir> {
    prop_oneof![3 => Just(Dir::Left), 3 => Just(Dir::Right), 1 => Just(Dir::Up), 1 => Just(Dir::Down)].boxed()
}
pub fn del() -> BoxedStrategy<Del> {
    prop_oneof![4 => Just(Del::Left), 4 => Just(Del::Right), 1 => Just(Del::Range)].boxed()
}

/// Texts made of words and parts of words.
pub fn text(w: Words) -> BoxedStrategy<Vec<String>> {
    let letters = |s: &str| s.chars().map(|c| c.to_string()).collect::<Vec<_>>();
    match w {
        Words::None => vec(gen::sym_wide(), 1..4).boxed(),
        Words::Own => prop_oneof![
            2 => vec(gen::pick(&["a", "b", "c", "q"]), 1..4),
            2 => (0..own_words().len(), 1usize..5).prop_map(move |(i, n)| letters(own_words()[i].0).into_iter().take(n).collect::<Vec<_>>()),
            1 => Just(vec!["ab".to_string()]),
        ]
        .boxed(),
        Words::Standard => prop_oneof![
            1 => vec(gen::pick(&["s", "u", "m", "x", "1", "+", "(", ")", ">", "=", "\"", " "]), 1..3),
            2 => (0..PUBLISHED.len(), 1usize..9).prop_map(move |(i, n)| letters(PUBLISHED[i]).into_iter().take(n).collect::<Vec<_>>()),
        ]
        .boxed(),
    }
}
pub fn symbol(w: Words) -> BoxedStrategy<String> {
    match w {
        Words::None => gen::sym_wide(),
        Words::Own => gen::pick(&["a", "b", "c", "a", "b", "q", "ab", "é"]),
        Words::Standard => gen::pick(&["s", "u", "m", "x", "1", "+", "=", ">", "\"", "é"]),
    }
}
/// Formulas in which words stand at many places.
pub fn formula(w: Words) -> BoxedStrategy<R> {
    if w == Words::None {
        return gen::formula(gen::sym_wide());
    }
    fn row(w: Words, depth: u32) -> BoxedStrategy<R> {
        let word = text(w).prop_map(|v| v.into_iter().map(N::S).collect::<Vec<_>>()).boxed();
        let piece: BoxedStrategy<Vec<N>> = if depth == 0 {
            word
        } else {
            let r = row(w, depth - 1);
            let c = prop_oneof![
                vec(r.clone(), 2).prop_map(|r| N::C(Kind::Frac, 1, r)),
                vec(r.clone(), 2).prop_map(|r| N::C(Kind::Root, 2, r)),
                r.clone().prop_map(|r| N::C(Kind::Sup, 1, vec![r])),
                r.clone().prop_map(|r| N::C(Kind::Sub, 1, vec![r])),
                gen::table(r, 2, 2),
            ];
            Union::new_weighted(vec![(3, word), (2, c.prop_map(|n| vec![n]).boxed())]).boxed()
        };
        vec(piece, 0..4).prop_map(|v| R(v.concat())).boxed()
    }
    let long = vec(text(w), 4..12).prop_map(|v| R(v.concat().into_iter().map(N::S).collect()));
    let deep = gen::nested(row(w, 0), 7);
    prop_oneof![4 => row(w, 0), 6 => row(w, 1), 4 => row(w, 2), 1 => long, 1 => deep].boxed()
}

/// A history: any order of the operations, with the usual ones more often.
pub fn op(w: Words) -> BoxedStrategy<G> {
    let content = prop_oneof![3 => gen::row_of(symbol(w), 1, 3), 1 => gen::row_of(symbol(w), 2, 2)].boxed();
    prop_oneof![
        8 => dir().prop_map(G::Move),
        4 => dir().prop_map(G::Select),
        6 => del().prop_map(G::Remove),
        8 => text(w).prop_map(G::Type),
        3 => content.clone().prop_map(G::Paste),
        1 => Just(G::SelectAll),
        3 => sel().prop_map(G::Start),
        3 => sel().prop_map(G::Extend),
        1 => Just(G::Finish),
        3 => Just(G::Accept(true)),
        1 => Just(G::Accept(false)),
        1 => Just(G::Open),
        2 => any::<bool>().prop_map(G::Choose),
        2 => (sel(), sel(), sel(), content).prop_map(|(a, b, c, r)| G::Splice(a, b, c, r)),
        6 => Just(G::Undo),
        4 => Just(G::Redo),
        1 => Just(G::Copy),
    ]
    .boxed()
}
