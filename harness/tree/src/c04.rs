//! C04: positions and ranges carried through row edits, against a model in which every element has an identity.
use crate::ops::*;
use input_tree::{
    editing::editable::Editable,
    focus::{InputRowPosition, InputRowRange, MinimalInputRowPosition, MinimalInputRowRange},
    input_tree::InputTree,
    row::Offset,
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure_eq, gen::*, model::*};

/// Element with an identity and its rows.
#[derive(Clone)]
struct T {
    id: u64,
    rows: Vec<Vec<T>>,
}
fn tag(r: &[N], next: &mut u64) -> Vec<T> {
    r.iter()
        .map(|n| {
            *next += 1;
            T { id: *next, rows: n.rows().iter().map(|r| tag(&r.0, next)).collect() }
        })
        .collect()
}
fn t_row<'a>(root: &'a Vec<T>, path: &[(usize, usize)]) -> &'a Vec<T> {
    path.iter().fold(root, |r, (e, c)| &r[*e].rows[*c])
}
fn t_row_mut<'a>(root: &'a mut Vec<T>, path: &[(usize, usize)]) -> &'a mut Vec<T> {
    path.iter().fold(root, |r, (e, c)| &mut r[*e].rows[*c])
}
/// Where the row that was at `path` is now: its containing elements, found again by identity.
fn find_row(old: &Vec<T>, new: &Vec<T>, path: &[(usize, usize)]) -> Option<Path> {
    let (mut o, mut n, mut out) = (old, new, vec![]);
    for (e, c) in path {
        let id = o[*e].id;
        let i = n.iter().position(|t| t.id == id)?;
        out.push((i, *c));
        o = &o[*e].rows[*c];
        n = &n[i].rows[*c];
    }
    Some(out)
}
/// Just behind the nearest surviving left neighbour.
fn after_left(old: &[T], new: &[T], o: usize) -> usize {
    old[..o]
        .iter()
        .rev()
        .find_map(|t| new.iter().position(|u| u.id == t.id))
        .map_or(0, |i| i + 1)
}
/// Just in front of the nearest surviving right neighbour.
fn before_right(old: &[T], new: &[T], o: usize) -> usize {
    old[o..]
        .iter()
        .find_map(|t| new.iter().position(|u| u.id == t.id))
        .unwrap_or(new.len())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    doc: R,
    ops: Vec<Op>,
    /// (row, start, end) of tracked ranges; every position is tracked besides.
    ranges: Vec<(Sel, Sel, Sel)>,
}

fn case() -> impl Strategy<Value = Case> {
    (
        formula(sym_plain()),
        vec(row_op(sym_plain()), 1..5),
        vec((sel(), sel(), sel()), 1..6),
    )
        .prop_map(|(doc, ops, ranges)| Case { doc, ops, ranges })
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut m = c.doc.clone();
    let mut tree = InputTree::new(m.to_input());
    let mut next = 0;
    let mut tagged = tag(&m.0, &mut next);
    let mut positions: Vec<(Path, usize)> = m.positions();
    let mut ranges: Vec<(Path, usize, usize)> = c
        .ranges
        .iter()
        .map(|(r, a, b)| {
            let p = row_by_sel(&m, *r);
            let n = m.get(&p).unwrap().len() + 1;
            (p, choose(*a, n), choose(*b, n))
        })
        .collect();
    let min = |p: &Path, x: usize| MinimalInputRowPosition { row_indices: indices(p), offset: Offset(x) };
    let minr = |p: &Path, a: usize, b: usize| MinimalInputRowRange {
        row_indices: indices(p),
        start: Offset(a),
        end: Offset(b),
    };

    for op in &c.ops {
        let Some(eff) = resolve(op, &m) else { continue };
        let edit = eff.edit();
        let before = m.clone();
        eff.apply(&mut m);
        tree.apply_edit(&edit);
        if R::from_input(&tree.root)? != m {
            // The edit itself is wrong: C02.
            o.label("edit had another effect");
            return Ok(());
        }
        let old = tagged.clone();
        let at = match &eff {
            Eff::Ins { path, at, values } => {
                let new: Vec<T> = tag(values, &mut next);
                t_row_mut(&mut tagged, path).splice(*at..*at, new);
                *at
            }
            Eff::Del { path, at, values } => {
                t_row_mut(&mut tagged, path).drain(*at..*at + values.len());
                *at
            }
            Eff::Grid { .. } => unreachable!(),
        };
        let edited = eff.path().clone();
        let nothing = before == m;

        for (path, off) in positions.iter_mut() {
            let mut real = min(path, *off);
            real.apply_edit(&edit);
            let expected = match find_row(&old, &tagged, path) {
                Some(np) => {
                    let x = after_left(t_row(&old, path), t_row(&tagged, &np), *off);
                    (np, x)
                }
                None => {
                    o.label("row of the position deleted");
                    (edited.clone(), at)
                }
            };
            let moved = expected != (path.clone(), *off);
            o.label_if(moved && expected.0.len() > edited.len(), "container shifted");
            o.label_if(!moved && !nothing && *path == edited && *off == at, "insertion or deletion starts at the position");
            o.nontrivial_if(moved);
            o.evals(1);
            ensure_eq!(real, min(&expected.0, expected.1), "position {path:?} {off} of {before:?} after {edit:?}");
            InputRowPosition::from_minimal(tree.root_focus(), &real);
            (*path, *off) = expected;
        }
        for (path, a, b) in ranges.iter_mut() {
            let mut real = minr(path, *a, *b);
            real.apply_edit(&edit);
            let (lo, hi) = (*a.min(b), *a.max(b));
            let expected = match find_row(&old, &tagged, path) {
                Some(np) => {
                    let (or, nr) = (t_row(&old, path), t_row(&tagged, &np));
                    let nlo = after_left(or, nr, lo);
                    let nhi = before_right(or, nr, hi);
                    // An edit elsewhere in the formula touches neither end.
                    o.label_if(nhi - nlo > hi - lo, "range grew");
                    o.label_if(nhi - nlo < hi - lo, "range shrank");
                    if a <= b {
                        (np, nlo, nhi)
                    } else {
                        o.label("backward range");
                        (np, nhi, nlo)
                    }
                }
                None => {
                    o.label("row of the range deleted");
                    (edited.clone(), at, at)
                }
            };
            o.evals(1);
            ensure_eq!(
                real,
                minr(&expected.0, expected.1, expected.2),
                "range {path:?} {a}..{b} of {before:?} after {edit:?}"
            );
            InputRowRange::from_minimal(tree.root_focus(), &real);
            (*path, *a, *b) = expected;
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C04",
        rule: "A case is a formula, 1-4 row edits and up to 5 ranges; all caret positions and the ranges are carried through every edit and compared with a model in which elements have identities; non-trivial when some position moves.",
        assumptions: vec![
            "row edits only: tracking through table row/column edits is declared unimplemented (todo!) in the code",
            "edits are valid (deletions carry the present content)",
        ],
        parts: vec![part("tracking", 750_000, 15_000_000, case, check)],
    }]
}
