//! C01 undo of edit sequences, C02 row edits, C03 table edits.
use crate::ops::*;
use input_tree::{
    editing::{editable::Editable, invertible::Invertible, BasicEdit},
    focus::{InputRowPosition, InputRowRange, MinimalInputRowPosition, MinimalInputRowRange},
    input_tree::InputTree,
    row::Offset,
};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    doc: R,
    ops: Vec<Op>,
}

fn mixed() -> impl Strategy<Value = Case> {
    let ops = prop_oneof![3 => row_op(sym_wide()), 2 => grid_op(sym_wide())];
    (prop_oneof![formula(sym_wide()), formula_with_table(sym_wide())], vec(ops, 1..8))
        .prop_map(|(doc, ops)| Case { doc, ops })
}
fn rows_only() -> impl Strategy<Value = Case> {
    (formula(sym_wide()), vec(row_op(sym_wide()), 1..8)).prop_map(|(doc, ops)| Case { doc, ops })
}
fn grids_only() -> impl Strategy<Value = Case> {
    (formula_with_table(sym_wide()), vec(grid_op(sym_wide()), 1..6)).prop_map(|(doc, ops)| Case { doc, ops })
}

fn undo_redo(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut m = c.doc.clone();
    let mut tree = InputTree::new(m.to_input());
    let mut snapshots = vec![tree.root.clone()];
    let mut edits: Vec<BasicEdit> = vec![];
    for op in &c.ops {
        // Selectors are resolved on the model; both are kept equal by the checks of C02 and C03.
        let Some(eff) = resolve(op, &m) else { continue };
        let edit = eff.edit();
        o.label(eff.label());
        ensure_eq!(edit.inverse().inverse(), edit, "inverse of the inverse of {edit:?}");
        tree.apply_edit(&edit);
        eff.apply(&mut m);
        if R::from_input(&tree.root)? != m {
            // Not this property's business (C02, C03), but the following edits may not be valid.
            o.label("edit had another effect");
            edits.push(edit);
            snapshots.push(tree.root.clone());
            break;
        }
        edits.push(edit);
        snapshots.push(tree.root.clone());
    }
    o.nontrivial_if(snapshots.first() != snapshots.last());
    o.label_if(edits.len() > 3, "more than 3 edits");
    // Undo one by one, then redo one by one.
    for i in (0..edits.len()).rev() {
        tree.apply_edit(&edits[i].inverse());
        o.evals(1);
        ensure_eq!(tree.root, snapshots[i], "undo of edit {i}: {:?}", edits[i]);
        R::from_input(&tree.root)?;
    }
    for i in 0..edits.len() {
        tree.apply_edit(&edits[i]);
        o.evals(1);
        ensure_eq!(tree.root, snapshots[i + 1], "redo of edit {i}: {:?}", edits[i]);
    }
    // The whole sequence at once.
    let inverses: Vec<BasicEdit> = edits.iter().rev().map(|e| e.inverse()).collect();
    tree.apply_edits(&inverses);
    ensure_eq!(tree.root, snapshots[0], "undo of the whole sequence");
    tree.apply_edits(&edits);
    ensure_eq!(&tree.root, snapshots.last().unwrap(), "redo of the whole sequence");
    Ok(())
}

fn effect(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut m = c.doc.clone();
    let mut tree = InputTree::new(m.to_input());
    for (i, op) in c.ops.iter().enumerate() {
        let Some(eff) = resolve(op, &m) else { continue };
        for (eff, what) in [(eff.clone(), "edit"), (eff.inverse(), "inverse"), (eff, "edit again")] {
            let edit = eff.edit();
            let before = m.clone();
            tree.apply_edit(&edit);
            eff.apply(&mut m);
            o.label(eff.label());
            o.label_if(!eff.path().is_empty(), "in a nested row");
            o.evals(1);
            o.nontrivial_if(before != m);
            ensure_eq!(R::from_input(&tree.root)?, m, "{what} {i} {edit:?} of {before:?}");
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ready {
    doc: R,
    row: Sel,
    a: Sel,
    b: Sel,
    values: Vec<N>,
}
fn ready_made() -> impl Strategy<Value = Ready> {
    (formula(sym_wide()), sel(), sel(), sel(), vec(node(sym_wide(), 1), 0..4))
        .prop_map(|(doc, row, a, b, values)| Ready { doc, row, a, b, values })
}
fn check_ready(c: &Ready, o: &mut Obs) -> Result<(), String> {
    let path = row_by_sel(&c.doc, c.row);
    let row = c.doc.get(&path).unwrap();
    let (a, b) = (choose(c.a, row.len() + 1), choose(c.b, row.len() + 1));
    let (lo, hi) = (a.min(b), a.max(b));
    o.nontrivial_if(lo != hi || !c.values.is_empty());
    o.label_if(a > b, "backward range");
    o.label_if(a == b, "collapsed range");
    o.label_if(!path.is_empty(), "in a nested row");
    o.evals(6);
    let run = |edits: &[BasicEdit]| -> Result<R, String> {
        let mut t = InputTree::new(c.doc.to_input());
        t.apply_edits(edits);
        R::from_input(&t.root)
    };
    let with = |values: &[N], lo: usize, hi: usize| {
        let mut m = c.doc.clone();
        let r = m.get_mut(&path).unwrap();
        r.0 = [&r.0[..lo], values, &r.0[hi..]].concat();
        m
    };
    let tree = InputTree::new(c.doc.to_input());
    let focus = || tree.root_focus().walk_down_indices(&indices(&path));
    let range = InputRowRange::new(focus(), Offset(a), Offset(b));
    let values = nodes_to_input(&c.values);
    let at = |off: usize| MinimalInputRowPosition { row_indices: indices(&path), offset: Offset(off) };

    let (edits, pos) = BasicEdit::remove_range(&range);
    ensure_eq!(run(&edits)?, with(&[], lo, hi), "remove {path:?} {a}..{b}");
    ensure_eq!(pos, at(lo), "caret place after removing {a}..{b}");

    let (edits, pos) = BasicEdit::insert_at_position(&InputRowPosition::new(focus(), Offset(a)), values.clone());
    ensure_eq!(run(&edits)?, with(&c.values, a, a), "insert at {path:?} {a}");
    ensure_eq!(pos, at(a + c.values.len()), "caret place after inserting at {a}");

    let (edits, new_range) = BasicEdit::replace_range(&range, values);
    ensure_eq!(run(&edits)?, with(&c.values, lo, hi), "replace {path:?} {a}..{b}");
    ensure_eq!(
        new_range,
        MinimalInputRowRange { row_indices: indices(&path), start: Offset(lo), end: Offset(lo + c.values.len()) },
        "range after replacing {a}..{b}"
    );
    ensure!(R::from_input(&tree.root)? == c.doc, "building an edit changed the formula");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    let domain = "edits are valid: they address existing rows and elements, deletions carry the present content, a table keeps at least one row and column";
    vec![
        Check {
            id: "C01",
            rule: "A case is a formula (up to 3 nested levels) and 1-7 valid edits chosen by selectors resolved against a list model; non-trivial when the edits change the formula. All prefixes are undone and redone.",
            assumptions: vec![domain],
            parts: vec![
                part("mixed", 240_000, 4_800_000, mixed, undo_redo),
                part("tables", 120_000, 2_400_000, grids_only, undo_redo),
            ],
        },
        Check {
            id: "C02",
            rule: "A case is a formula and row edits (or a range and values for the ready-made edits); the real result is compared element by element with list surgery on an independent model; non-trivial when the formula changes.",
            assumptions: vec![domain],
            parts: vec![
                part("edits", 320_000, 6_400_000, rows_only, effect),
                part("ready-made", 480_000, 9_600_000, ready_made, check_ready),
            ],
        },
        Check {
            id: "C03",
            rule: "A case is a formula with at least one table and 1-5 row/column insertions or deletions (each also inverted and repeated); the result is compared cell by cell with a (column,row) model; non-trivial when the formula changes.",
            assumptions: vec![domain],
            parts: vec![part("tables", 250_000, 5_000_000, grids_only, effect)],
        },
    ]
}
