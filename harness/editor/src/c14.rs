//! C14: typing and deleting; C15, C16: arrows; C23: selections.
use crate::ed::*;
use crate::model::{arrow, delete, horizontal, shown};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{
    ensure, ensure_eq,
    gen::{self, choose, sel, Sel},
    model::*,
};

fn shapes() -> BoxedStrategy<R> {
    prop_oneof![3 => gen::formula(gen::sym_plain()), 2 => gen::formula_with_table(gen::sym_plain()), 1 => gen::formula(gen::sym_wide())].boxed()
}
/// Mostly empty rows and small elements, where deleting has its special cases.
fn sparse() -> BoxedStrategy<R> {
    fn row(depth: u32) -> BoxedStrategy<R> {
        if depth == 0 {
            return prop_oneof![3 => Just(R::default()), 1 => Just(R(vec![N::s("a")]))].boxed();
        }
        let r = row(depth - 1);
        let n = prop_oneof![
            2 => gen::sym_plain().prop_map(N::S),
            2 => vec(r.clone(), 2).prop_map(|r| N::C(Kind::Frac, 1, r)),
            2 => vec(r.clone(), 2).prop_map(|r| N::C(Kind::Root, 2, r)),
            1 => r.clone().prop_map(|r| N::C(Kind::Sup, 1, vec![r])),
            1 => r.clone().prop_map(|r| N::C(Kind::Sub, 1, vec![r])),
            1 => gen::table(r, 2, 2),
        ];
        vec(n, 0..3).prop_map(R).boxed()
    }
    prop_oneof![row(1), row(2), row(3)].boxed()
}
fn both() -> BoxedStrategy<R> {
    prop_oneof![shapes(), sparse()].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Delete {
    formula: R,
    at: Sel,
    to: Option<Sel>,
    how: Del,
}
fn delete_case() -> impl Strategy<Value = Delete> {
    (both(), sel(), proptest::option::weighted(0.25, sel()), del())
        .prop_map(|(formula, at, to, how)| Delete { formula, at, to, how })
}
fn ends(f: &R, at: Sel, to: Option<Sel>) -> (Pos, Pos) {
    let p = f.positions();
    let a = p[choose(at, p.len())].clone();
    let b = to.map_or(a.clone(), |t| p[choose(t, p.len())].clone());
    (a, b)
}
fn delete_check(c: &Delete, o: &mut Obs) -> Result<(), String> {
    let (a, b) = ends(&c.formula, c.at, c.to);
    let mut ed = Ed::with(Words::None, &c.formula, &a, &b);
    let Shown::Row(path, s, e) = ed.shown() else {
        o.label("block of cells, skipped");
        return Ok(());
    };
    let (formula, place, name) = if s != e {
        let mut f = c.formula.clone();
        f.get_mut(&path).unwrap().0.drain(s.min(e)..s.max(e));
        (f, (path.clone(), s.min(e)), "selection")
    } else {
        delete(&c.formula, &(path.clone(), s), c.how).unwrap_or((c.formula.clone(), (path.clone(), s), "nothing to delete"))
    };
    o.label(name);
    o.nontrivial_if(!matches!(name, "nothing selected" | "nothing to delete"));
    ed.apply(&Op::Remove(c.how));
    let after = ed.state()?;
    ensure_eq!(after.formula, formula, "formula after deleting {:?} at {path:?} {s}..{e} of {:?} ({name})", c.how, c.formula);
    ensure_eq!(after.shown, Shown::at(&place), "caret after deleting {:?} at {path:?} {s}..{e} of {:?} ({name})", c.how, c.formula);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Insert {
    formula: R,
    at: Sel,
    to: Option<Sel>,
    what: What,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Symbols(Vec<String>),
    Elements(R),
    /// copies the selection at these places and pastes it
    Copied(Sel, Sel),
}
fn insert_case() -> impl Strategy<Value = Insert> {
    let what = prop_oneof![
        2 => prop_oneof![15 => vec(gen::sym_wide(), 0..5), 1 => vec(gen::sym_wide(), 5..60)].prop_map(What::Symbols),
        2 => gen::row_of(gen::sym_wide(), 2, 3).prop_map(What::Elements),
        1 => (sel(), sel()).prop_map(|(a, b)| What::Copied(a, b)),
    ];
    (shapes(), sel(), proptest::option::weighted(0.6, sel()), what)
        .prop_map(|(formula, at, to, what)| Insert { formula, at, to, what })
}
fn insert_check(c: &Insert, o: &mut Obs) -> Result<(), String> {
    let (a, b) = ends(&c.formula, c.at, c.to);
    let mut ed = Ed::with(Words::None, &c.formula, &a, &b);
    let Shown::Row(path, s, e) = ed.shown() else {
        o.label("block of cells, skipped");
        return Ok(());
    };
    let new = match &c.what {
        What::Symbols(v) => {
            ed.apply(&Op::Type(v.clone()));
            o.label("typed");
            v.iter().map(|s| N::S(s.clone())).collect()
        }
        What::Elements(r) => {
            ed.apply(&Op::Paste(r.clone()));
            o.label("pasted");
            r.0.clone()
        }
        What::Copied(x, y) => {
            let (x, y) = ends(&c.formula, *x, Some(*y));
            ed.place(&x, &y);
            let Shown::Row(p, s, e) = ed.shown() else {
                o.label("block of cells, skipped");
                return Ok(());
            };
            let Some(text) = ed.apply(&Op::Copy) else { return Err("copying fails".into()) };
            ensure_eq!(ed.formula()?, c.formula.clone(), "copying changes the formula");
            ed.place(&a, &b);
            ensure!(ed.apply(&Op::PasteText(text)).is_some(), "a copied part is rejected");
            o.label("copied and pasted");
            c.formula.get(&p).unwrap().0[s.min(e)..s.max(e)].to_vec()
        }
    };
    let (lo, hi) = (s.min(e), s.max(e));
    let n = new.len();
    o.nontrivial_if(n > 0 || lo < hi);
    o.label_if(lo < hi, "over a selection");
    o.label_if(s > e, "over a backwards selection");
    let mut f = c.formula.clone();
    f.get_mut(&path).unwrap().0.splice(lo..hi, new);
    let after = ed.state()?;
    ensure_eq!(after.formula, f, "formula after putting {:?} at {path:?} {s}..{e} of {:?}", c.what, c.formula);
    ensure_eq!(after.shown, Shown::Row(path.clone(), lo + n, lo + n), "caret after putting {:?} at {path:?} {s}..{e} of {:?}", c.what, c.formula);
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Walk {
    formula: R,
}
fn walk_case() -> impl Strategy<Value = Walk> {
    both().prop_map(|formula| Walk { formula })
}
fn walk_check(c: &Walk, o: &mut Obs) -> Result<(), String> {
    let all = c.formula.positions();
    o.nontrivial_if(c.formula.depth() > 0);
    o.label_if(c.formula.depth() > 1, "nested twice");
    o.evals(2 * all.len());
    let mut ed = Ed::with(Words::None, &c.formula, &all[0], &all[0]);
    for d in [Dir::Right, Dir::Left] {
        let order: Vec<&Pos> = if d == Dir::Right { all.iter().collect() } else { all.iter().rev().collect() };
        for (i, p) in order.iter().enumerate() {
            ensure_eq!(ed.shown(), Shown::at(p), "caret after {i} times {d:?} in {:?}", c.formula);
            ed.apply(&Op::Move(d));
        }
        ensure_eq!(ed.shown(), Shown::at(order[order.len() - 1]), "{d:?} at the end of {:?}", c.formula);
    }
    ensure_eq!(ed.formula()?, c.formula.clone(), "moving changes the formula");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Leave {
    formula: R,
    a: Sel,
    b: Sel,
}
fn leave_case() -> impl Strategy<Value = Leave> {
    (both(), sel(), sel()).prop_map(|(formula, a, b)| Leave { formula, a, b })
}
fn leave(c: &Leave, ds: [Dir; 2], o: &mut Obs) -> Result<(), String> {
    let (a, b) = ends(&c.formula, c.a, Some(c.b));
    for d in ds {
        let mut ed = Ed::with(Words::None, &c.formula, &a, &b);
        let Shown::Row(path, s, e) = ed.shown() else {
            o.label("block of cells, skipped");
            return Ok(());
        };
        let to = arrow(&c.formula, &path, s, e, d).unwrap_or((path.clone(), s));
        o.nontrivial_if(s != e);
        o.label_if(s > e, "backwards");
        ed.apply(&Op::Move(d));
        ensure_eq!(ed.shown(), Shown::at(&to), "{d:?} from the selection {path:?} {s}..{e} in {:?}", c.formula);
    }
    Ok(())
}
fn leave_check(c: &Leave, o: &mut Obs) -> Result<(), String> {
    leave(c, [Dir::Left, Dir::Right], o)
}
fn leave_vertically(c: &Leave, o: &mut Obs) -> Result<(), String> {
    leave(c, [Dir::Up, Dir::Down], o)
}

fn vertical_check(c: &Walk, o: &mut Obs) -> Result<(), String> {
    let all = c.formula.positions();
    let mut ed = Ed::with(Words::None, &c.formula, &all[0], &all[0]);
    for p in &all {
        for d in [Dir::Up, Dir::Down] {
            ed.place(p, p);
            ed.apply(&Op::Move(d));
            let to = arrow(&c.formula, &p.0, p.1, p.1, d);
            o.nontrivial_if(to.is_some());
            if let Some((q, _)) = &to {
                o.label(if q.len() < p.0.len() { "out of a script" } else { "other cell" });
                o.label_if(q.len() < p.0.len() && q.len() + 1 < p.0.len(), "out of several levels");
            }
            let to = to.unwrap_or(p.clone());
            ensure_eq!(ed.shown(), Shown::at(&to), "{d:?} from {p:?} in {:?}", c.formula);
            // and back
            if d == Dir::Down && to.0.len() == p.0.len() && to != *p {
                ed.apply(&Op::Move(Dir::Up));
                ensure_eq!(ed.shown().place().map(|x| x.0), Some(p.0.clone()), "down and up again from {p:?} in {:?}", c.formula);
            }
        }
    }
    o.evals(2 * all.len());
    ensure_eq!(ed.formula()?, c.formula.clone(), "moving changes the formula");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Grow {
    formula: R,
    from: Sel,
    steps: Vec<Dir>,
}
fn grow_case() -> impl Strategy<Value = Grow> {
    (both(), sel(), vec(dir(), 1..8)).prop_map(|(formula, from, steps)| Grow { formula, from, steps })
}
/// Selecting by arrow keeps the beginning and moves the end.
fn grow_check(c: &Grow, o: &mut Obs) -> Result<(), String> {
    let (from, _) = ends(&c.formula, c.from, None);
    let mut ed = Ed::with(Words::None, &c.formula, &from, &from);
    for (i, d) in c.steps.iter().enumerate() {
        let Shown::Row(path, _, e) = ed.shown() else { break };
        let moved = match d {
            Dir::Left => horizontal(&c.formula, &(path.clone(), e), true),
            Dir::Right => horizontal(&c.formula, &(path.clone(), e), false),
            _ => arrow(&c.formula, &path, e, e, *d),
        };
        let before = ed.shown();
        ed.apply(&Op::Select(*d));
        let expected = match &moved {
            Some(to) => shown(&c.formula, &from, to),
            None => before,
        };
        o.nontrivial_if(moved.is_some());
        ensure_eq!(ed.shown(), expected, "selection from {from:?} after {:?} in {:?}", &c.steps[..=i], c.formula);
        o.label_if(ed.shown().is_grid(), "block of cells");
        o.evals(1);
    }
    ensure_eq!(ed.formula()?, c.formula.clone(), "selecting changes the formula");
    Ok(())
}

fn pair_check(c: &Leave, o: &mut Obs) -> Result<(), String> {
    let (a, b) = ends(&c.formula, c.a, Some(c.b));
    pair(&c.formula, &a, &b, o)?;
    // Dragged by way of other places, after everything was selected.
    let f = &c.formula;
    let mut ed = Ed::with(Words::None, f, &b, &a);
    ed.apply(&Op::SelectAll);
    ensure_eq!(ed.shown(), Shown::Row(vec![], 0, f.len()), "everything is selected in {f:?}");
    ed.apply(&Op::Start(a.clone()));
    ensure_eq!(ed.shown(), Shown::at(&a), "a selection begins at {a:?} in {f:?}");
    let all = f.positions();
    for x in [&all[choose(c.a ^ c.b, all.len())], &all[0], &b] {
        ed.apply(&Op::Extend(x.clone()));
        ensure_eq!(ed.shown(), shown(f, &a, x), "a selection from {a:?} is dragged to {x:?} in {f:?}");
    }
    let dragged = ed.shown();
    ed.apply(&Op::Finish);
    ensure_eq!(ed.shown(), dragged, "a selection from {a:?} to {b:?} is finished in {f:?}");
    let x = &all[choose(c.b.wrapping_mul(3), all.len())];
    ed.apply(&Op::Extend(x.clone()));
    ensure_eq!(ed.shown(), shown(f, &a, x), "a finished selection from {a:?} is extended to {x:?} in {f:?}");
    ed.apply(&Op::Start(b.clone()));
    ensure_eq!(ed.shown(), Shown::at(&b), "another selection begins at {b:?} in {f:?}");
    ed.apply(&Op::SelectAll);
    ed.apply(&Op::Finish);
    ed.apply(&Op::Extend(x.clone()));
    ensure_eq!(ed.shown(), shown(f, &(vec![], 0), x), "everything was selected, and then up to {x:?} in {f:?}");
    o.evals(9);
    Ok(())
}
fn pair(f: &R, a: &Pos, b: &Pos, o: &mut Obs) -> Result<(), String> {
    let ed = Ed::with(Words::None, f, a, b);
    let expected = shown(f, a, b);
    o.label_if(expected.is_grid(), "block of cells");
    o.label_if(a.0 != b.0, "different rows");
    o.nontrivial_if(a != b);
    o.evals(1);
    ensure_eq!(ed.shown(), expected, "selection from {a:?} to {b:?} in {f:?}");
    Ok(())
}
fn table_case() -> impl Strategy<Value = Leave> {
    (gen::formula_with_table(gen::sym_plain()), sel(), sel()).prop_map(|(formula, a, b)| Leave { formula, a, b })
}
/// Both ends in the same table.
fn table_check(c: &Leave, o: &mut Obs) -> Result<(), String> {
    let t = c.formula.tables();
    if t.is_empty() {
        return Ok(());
    }
    let (path, i) = &t[choose(c.a, t.len())];
    let p: Vec<Pos> = c
        .formula
        .positions()
        .into_iter()
        .filter(|p| p.0.len() > path.len() && p.0[..path.len()] == path[..] && p.0[path.len()].0 == *i)
        .collect();
    let mix = |x: Sel, y: Sel| choose(x.wrapping_mul(40503).wrapping_add(y.wrapping_mul(28411)), p.len());
    let (a, b) = (&p[mix(c.a, c.b)], &p[mix(c.b, c.a.wrapping_add(77))]);
    pair(&c.formula, a, b, o)?;
    pair(&c.formula, b, a, o)
}
/// All pairs of positions of a small formula.
fn small_case() -> impl Strategy<Value = Walk> {
    prop_oneof![sparse(), gen::row_of(gen::sym_plain(), 2, 2)].prop_map(|formula| Walk { formula })
}
fn all_pairs(c: &Walk, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let p = &p[..p.len().min(14)];
    for a in p {
        for b in p {
            pair(&c.formula, a, b, o)?;
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C14",
            rule: "A case is a formula, a caret or row selection and a deletion (left, right, range), or typed, pasted or copied-and-pasted elements; formula and caret afterwards are compared with a reference model. Half of the deletion cases are formulas of mostly empty rows. Non-trivial when something is inserted, removed, dissolved or moved into.",
            assumptions: vec!["no completions are active (C18 covers them)", "blocks of table cells cannot be deleted or replaced yet (unimplemented) and are skipped"],
            parts: vec![
                part("delete", 600_000, 12_000_000, delete_case, delete_check),
                part("insert", 600_000, 12_000_000, insert_case, insert_check),
            ],
        },
        Check {
            id: "C15",
            rule: "Part walk: right from the first position through the whole formula and left back, compared with the reading order of the positions. Part leave: left and right from the selection between two random positions. Part select: up to seven arrows that extend a selection. Non-trivial when the formula has elements with rows, the selection is not empty, or an arrow moves.",
            assumptions: vec!["a block of table cells does not react to arrows (unimplemented) and is skipped"],
            parts: vec![
                part("walk", 240_000, 4_800_000, walk_case, walk_check),
                part("leave", 320_000, 6_400_000, leave_case, leave_check),
                part("select", 320_000, 6_400_000, grow_case, grow_check),
            ],
        },
        Check {
            id: "C16",
            rule: "Up and down from every position of a formula (part places) and from selections between two random positions (part leave), compared with a reference model. Non-trivial when the caret moves (places) or the selection is not empty (leave).",
            assumptions: vec!["no caret coordinates on screen are given, as in the web editor"],
            parts: vec![
                part("places", 280_000, 5_600_000, walk_case, vertical_check),
                part("leave", 420_000, 8_400_000, leave_case, leave_vertically),
            ],
        },
        Check {
            id: "C23",
            rule: "The selection the editor reports after selecting from one position to another, for random pairs (part pairs), pairs within one table (part tables) and all pairs of up to 14 positions of small formulas (part small), compared with a reference model. Non-trivial when the positions differ.",
            assumptions: vec![],
            parts: vec![
                part("pairs", 400_000, 8_000_000, leave_case, pair_check),
                part("tables", 300_000, 6_000_000, table_case, table_check),
                part("small", 40_000, 800_000, small_case, all_pairs),
            ],
        },
    ]
}
