//! C05 reading order, C06 ranges from positions.
use input_tree::{
    focus::{InputRowPosition, InputRowRange},
    input_tree::InputTree,
    row::{Offset, RowIndices},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    doc: R,
}
fn small() -> impl Strategy<Value = Case> {
    prop_oneof![
        row_of(sym_plain(), 2, 3),
        row_of(sym_plain(), 3, 2),
        formula_with_table(sym_plain()),
        formula(sym_plain()),
    ]
    .prop_map(|doc| Case { doc })
}

/// Real positions in reading order, at most `n` of them, evenly spread.
fn spread<'a>(m: &R, tree: &'a InputTree, n: usize) -> Vec<(Pos, InputRowPosition<'a>)> {
    let all = m.positions();
    let step = all.len().div_ceil(n).max(1);
    all.into_iter()
        .step_by(step)
        .map(|(p, o)| {
            let real = InputRowPosition::new(tree.root_focus().walk_down_indices(&indices(&p)), Offset(o));
            ((p, o), real)
        })
        .collect()
}

fn order(c: &Case, o: &mut Obs) -> Result<(), String> {
    let tree = InputTree::new(c.doc.to_input());
    let list = spread(&c.doc, &tree, 120);
    o.nontrivial_if(list.iter().any(|((p, _), _)| !p.is_empty()));
    o.label_if(list.iter().any(|((p, _), _)| p.len() >= 2), "two levels");
    for (i, (mp, p)) in list.iter().enumerate() {
        for (j, (mq, q)) in list.iter().enumerate() {
            let expected = i.cmp(&j);
            ensure_eq!(p.cmp(q), expected, "order of {mp:?} and {mq:?} in {:?}", c.doc);
            ensure_eq!(p.partial_cmp(q), Some(expected), "partial order of {mp:?} and {mq:?}");
            ensure_eq!(p == q, expected == Ordering::Equal, "equality of {mp:?} and {mq:?}");
            ensure_eq!(p < q, expected == Ordering::Less, "{mp:?} < {mq:?}");
            ensure_eq!(
                RowIndices::cmp_indices_and_offset(p.row_indices(), &p.offset, q.row_indices(), &q.offset),
                expected,
                "order of the addresses {mp:?} and {mq:?}"
            );
        }
    }
    o.evals(list.len() * list.len());
    // Sorting a shuffled list gives reading order.
    let mut mixed: Vec<&(Pos, InputRowPosition)> = list.iter().rev().step_by(2).chain(list.iter()).collect();
    mixed.sort_by(|a, b| a.1.cmp(&b.1));
    mixed.dedup_by(|a, b| a.1 == b.1);
    let sorted: Vec<&Pos> = mixed.iter().map(|x| &x.0).collect();
    let expected: Vec<&Pos> = list.iter().map(|x| &x.0).collect();
    ensure_eq!(sorted, expected, "sorted positions");
    Ok(())
}

fn cover(c: &Case, o: &mut Obs) -> Result<(), String> {
    let tree = InputTree::new(c.doc.to_input());
    let list = spread(&c.doc, &tree, 40);
    let all = spread(&c.doc, &tree, 60);
    let index = c.doc.positions();
    let at = |p: &Pos| index.iter().position(|x| x == p).unwrap();
    o.evals(list.len() * list.len());
    for (mp, p) in &list {
        for (mq, q) in &list {
            // The deepest row containing both.
            let shared: Path = mp.0.iter().zip(&mq.0).take_while(|(a, b)| a == b).map(|(a, _)| *a).collect();
            let span = |x: &Pos| match x.0.get(shared.len()) {
                Some((e, _)) => (*e, e + 1),
                None => (x.1, x.1),
            };
            let (a, b) = (span(mp), span(mq));
            let (lo, hi) = (a.0.min(b.0), a.1.max(b.1));
            let forward = at(mp) <= at(mq);
            let r = tree.range_from_positions(p, q);
            let what = || format!("range from {mp:?} to {mq:?} of {:?}", c.doc);
            ensure_eq!(path_of(r.row_indices()), shared, "row of the {}", what());
            let (s, e) = if forward { (lo, hi) } else { (hi, lo) };
            ensure_eq!((r.start.0, r.end.0), (s, e), "offsets of the {}", what());
            ensure_eq!(r.is_forwards(), forward || lo == hi, "direction of the {}", what());
            accessors(c, &r, &shared, s, e)?;
            o.nontrivial_if(mp.0 != mq.0);
            o.label_if(!forward, "backwards");
            o.label_if(mp.0.len() > shared.len() && mq.0.len() > shared.len(), "both ends nested");
            if mp.1 == 0 {
                for (mx, x) in &all {
                    let inside = at(&(shared.clone(), lo)) <= at(mx) && at(mx) <= at(&(shared.clone(), hi));
                    ensure_eq!(r.contains(x), inside, "{mx:?} in the {}", what());
                    ensure_eq!(x.in_range(r.clone()), inside, "{mx:?} in_range the {}", what());
                }
            }
        }
    }
    Ok(())
}

fn accessors(c: &Case, r: &InputRowRange, row: &Path, s: usize, e: usize) -> Result<(), String> {
    let (lo, hi) = (s.min(e), s.max(e));
    let what = format!("range {row:?} {s}..{e}");
    ensure_eq!(r.left_offset(), Offset(lo), "left end of {what}");
    ensure_eq!(r.right_offset(), Offset(hi), "right end of {what}");
    ensure_eq!(r.len(), hi - lo, "length of {what}");
    ensure_eq!(r.is_empty(), hi == lo, "is_empty of {what}");
    ensure_eq!(r.is_collapsed(), s == e, "is_collapsed of {what}");
    let values = nodes_from_input(r.values())?;
    ensure_eq!(values[..], c.doc.get(row).unwrap().0[lo..hi], "elements of {what}");
    for (p, x, n) in [
        (r.start_position(), s, "start"),
        (r.end_position(), e, "end"),
        (r.left_position(), lo, "left"),
        (r.right_position(), hi, "right"),
    ] {
        ensure!(
            p.offset == Offset(x) && path_of(p.row_indices()) == *row,
            "{n} position of {what} is {:?} {:?}",
            p.row_indices(),
            p.offset
        );
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C05",
            rule: "A case is a formula; all pairs of its caret positions (at most 120 spread evenly) are compared with their index in the reading-order list of the model, which makes the order total by construction; non-trivial when the formula has nested rows.",
            assumptions: vec![],
            parts: vec![part("pairs", 480_000, 9_600_000, small, order)],
        },
        Check {
            id: "C06",
            rule: "A case is a formula; for all pairs of its positions (at most 40 spread evenly) the range is compared with the smallest cover computed on the model, with all accessors, and containment against the reading-order list; non-trivial when the two ends lie in different rows.",
            assumptions: vec![],
            parts: vec![part("pairs", 30_000, 600_000, small, cover)],
        },
    ]
}
