//! C13: the caret is always valid and no operation crashes.
use crate::ed::*;
use parser::autocomplete::AutocompleteMatcher;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, gen::{choose, sel, Sel}, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub words: Words,
    pub formula: R,
    pub start: Sel,
    pub end: Option<Sel>,
    pub ops: Vec<G>,
}
fn cases(w: Words, max: usize) -> impl Strategy<Value = Case> {
    (formula(w), sel(), proptest::option::weighted(0.3, sel()), prop_oneof![60 => vec(op(w), 1..max), 1 => vec(op(w), 40..150)])
        .prop_map(move |(formula, start, end, ops)| Case { words: w, formula, start, end, ops })
}
fn any_symbols() -> impl Strategy<Value = Case> {
    cases(Words::None, 14)
}
fn own() -> impl Strategy<Value = Case> {
    cases(Words::Own, 14)
}
fn standard() -> impl Strategy<Value = Case> {
    cases(Words::Standard, 14)
}
/// Nothing but typing from an empty formula.
fn typing() -> impl Strategy<Value = Case> {
    let op = prop_oneof![
        6 => text(Words::Standard).prop_map(G::Type),
        4 => dir().prop_map(G::Move),
        3 => del().prop_map(G::Remove),
        3 => Just(G::Accept(true)),
        1 => any::<bool>().prop_map(G::Choose),
        1 => Just(G::Undo),
        1 => Just(G::Redo),
    ];
    prop_oneof![60 => vec(op.clone(), 1..25), 1 => vec(op, 60..200)].prop_map(|ops| Case { words: Words::Standard, formula: R::default(), start: 0, end: None, ops })
}

pub fn brackets(f: &R) -> usize {
    let mut n = 0;
    f.clone().map_symbols(&mut |s| n += usize::from(s == "("));
    n
}

/// Everything the user interface asks after each operation.
pub fn look(ed: &mut Ed, w: Words, o: &mut Obs) -> Result<State, String> {
    let s = ed.state()?;
    ensure!(s.shown.is_valid_in(&s.formula), "the selection {:?} does not exist in {:?}", s.shown, s.formula);
    o.label_if(s.shown.is_grid(), "block of cells");
    o.label_if(s.formula.depth() > 0, "nested");
    if let Some(a) = ed.e.get_autocomplete() {
        let (i, m, at) = a.destructure();
        let at = (path_of(&at.row_indices), at.offset.0);
        ensure!(i < m.len(), "completion {i} of {} is selected", m.len());
        ensure!(Some(&at) == s.shown.place().as_ref(), "completions at {at:?}, the caret is at {:?}", s.shown);
        for x in m {
            ensure!(x.input_match_length <= at.1, "{x:?} reaches beyond the row's beginning at {at:?}");
        }
        o.label("completions offered");
    }
    if w == Words::Standard && brackets(&s.formula) <= 5 {
        ed.e.get_syntax_tree();
    }
    o.evals(1);
    Ok(s)
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let start = p[choose(c.start, p.len())].clone();
    let end = c.end.map_or(start.clone(), |e| p[choose(e, p.len())].clone());
    let mut ed = Ed::with(c.words, &c.formula, &start, &end);
    look(&mut ed, c.words, o)?;
    let mut done: Vec<Op> = vec![];
    for g in &c.ops {
        let f = ed.formula()?;
        let op = g.on(&f);
        if !ed.supports(&op) {
            continue;
        }
        done.push(op);
        let op = done.last().unwrap();
        let result = ed.apply(op);
        let s = look(&mut ed, c.words, o).map_err(|e| format!("{e}\nafter {done:?}"))?;
        o.label(format!("{op:?}").split(|c: char| !c.is_alphabetic()).next().unwrap_or("").to_string());
        o.nontrivial_if(result.is_some() || s.formula != f);
    }
    // Using the caret where it now stands (both of its ends count).
    let p = ed.formula()?.positions();
    ed.apply(&Op::Extend(p[0].clone()));
    look(&mut ed, c.words, o)?;
    ed.apply(&Op::Extend(p[p.len() - 1].clone()));
    look(&mut ed, c.words, o)?;
    let _ = parser(c.words).matches(&[], 0, 1);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C13",
        rule: "A case is a formula, a caret or selection in it and up to 14 operations (25 from an empty formula in part typing) out of all supported ones; places are chosen among the existing ones when the operation is performed. After each operation the formula must be well formed, the reported selection and the offered completions must lie in it, and the syntax tree must be available; crashes anywhere count. Non-trivial when at least one operation has an effect.",
        assumptions: vec![
            "operations the editor leaves unimplemented are not called: movement by word or line, and typing, deleting, copying, pasting or extending by arrow while a block of table cells is selected",
            "the syntax tree is not asked for when more than five opening brackets stand in the formula (see the known finding of C19)",
        ],
        parts: vec![
            part("any", 96_000, 1_920_000, any_symbols, check),
            part("own", 96_000, 1_920_000, own, check),
            part("standard", 64_000, 1_280_000, standard, check),
            part("typing", 64_000, 1_280_000, typing, check),
        ],
    }]
}
