//! C07: walking up and down.
use input_tree::{
    direction::HorizontalDirection,
    focus::*,
    grid::{GridRectangle, Index2D},
    input_tree::InputTree,
    row::{Offset, RowIndex},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    doc: R,
    beyond: u8,
    cells: (Sel, Sel),
}
fn case() -> impl Strategy<Value = Case> {
    (
        prop_oneof![formula(sym_wide()), formula_with_table(sym_wide())],
        any::<u8>(),
        (sel(), sel()),
    )
        .prop_map(|(doc, beyond, cells)| Case { doc, beyond, cells })
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let tree = InputTree::new(c.doc.to_input());
    let beyond = [0usize, 1, 7, usize::MAX / 2][c.beyond as usize % 4];
    let rows = c.doc.rows();
    o.nontrivial_if(rows.len() > 1);
    o.label_if(rows.iter().any(|r| r.len() >= 3), "three levels");
    o.evals(rows.len());
    for path in &rows {
        let m = c.doc.get(path).unwrap();
        let focus = tree.root_focus().walk_down_indices(&indices(path));
        let what = format!("row {path:?}");
        ensure_eq!(path_of(focus.row_indices()), *path, "address of {what}");
        ensure_eq!(R::from_input(focus.row())?, *m, "content of {what}");
        ensure_eq!(focus.len(), m.len(), "length of {what}");
        ensure_eq!(focus.is_empty(), m.is_empty(), "emptiness of {what}");
        ensure_eq!(focus.index_in_parent(), path.last().map(|x| x.1), "place in its parent of {what}");
        ensure!(focus == tree.root_focus().walk_down_indices(&indices(path)), "{what} is not equal to itself");

        // Up to the outermost row, one step at a time, checking every address on the way.
        let mut up = focus.clone();
        for depth in (0..path.len()).rev() {
            let node = up.clone().parent().ok_or(format!("{what}: no parent at depth {depth}"))?;
            let (e, cell) = path[depth];
            ensure_eq!(node.index_in_parent(), e, "place of the element above {what}");
            let ei = node.element_indices();
            ensure_eq!((path_of(&ei.row_indices), ei.index), (path[..depth].to_vec(), e), "address of the element above {what}");
            let back = node.clone().child_at(cell).map_err(|_| format!("{what}: cannot walk back down"))?;
            ensure!(back == up && path_of(back.row_indices()) == path[..=depth], "walking up and down from {what} ends elsewhere");
            up = node.parent();
            ensure_eq!(path_of(up.row_indices()), path[..depth].to_vec(), "address after walking up from {what}");
            ensure_eq!(up.index_in_parent(), path[..depth].last().map(|x| x.1), "place in parent after walking up from {what}");
        }
        ensure!(up.clone().parent().is_none(), "the outermost row has a parent");
        ensure_eq!(up.index_in_parent(), None, "place in its parent of the outermost row");
        ensure_eq!(R::from_input(up.row())?, c.doc, "outermost row reached from {what}");

        // Elements, and the rows in them.
        for (i, n) in m.0.iter().enumerate() {
            let node = focus.clone().child_at(i).ok_or(format!("{what}: element {i} not found"))?;
            ensure_eq!(N::from_input(node.node())?, *n, "element {i} of {what}");
            ensure_eq!(focus.node_at(i).map(|x| N::from_input(x)).transpose()?, Some(n.clone()), "node_at {i} of {what}");
            ensure_eq!(node.index_in_parent(), i, "place of element {i} of {what}");
            ensure!(node.clone().parent() == focus, "parent of element {i} of {what}");
            for j in 0..n.rows().len() {
                let child = focus.clone().row_at((i, j)).ok_or(format!("{what}: row {j} of element {i} not found"))?;
                ensure_eq!(R::from_input(child.row())?, n.rows()[j], "row_at({i},{j}) of {what}");
                let mut p = path.clone();
                p.push((i, j));
                ensure_eq!(path_of(child.row_indices()), p, "address of row_at({i},{j}) of {what}");
                let direct = node.clone().child_at(j).map_err(|_| format!("{what}: child {j} of element {i} not found"))?;
                ensure!(direct == child, "child_at and row_at disagree");
            }
            let missing = n.rows().len().saturating_add(beyond);
            match node.clone().child_at(missing) {
                Ok(_) => return Err(format!("{what}: element {i} has a row {missing}")),
                Err(same) => {
                    ensure!(same == node, "a refused step moved the focus");
                    let ei = same.element_indices();
                    ensure_eq!((path_of(&ei.row_indices), ei.index), (path.clone(), i), "address after a refused step");
                }
            }
            ensure!(focus.clone().row_at(RowIndex(i, missing)).is_none(), "{what}: row_at({i},{missing})");
            o.label("refused row");
        }
        let missing = m.len().saturating_add(beyond);
        ensure!(focus.clone().child_at(missing).is_none(), "{what}: element {missing} exists");
        ensure!(focus.node_at(missing).is_none(), "{what}: node {missing} exists");
        ensure!(focus.clone().row_at((missing, 0)).is_none(), "{what}: row_at({missing},0) exists");

        for off in 0..=m.len() {
            ensure_eq!(focus.offset_to_index(Offset(off), HorizontalDirection::Left), off.checked_sub(1), "element left of {off} in {what}");
            ensure_eq!(
                focus.offset_to_index(Offset(off), HorizontalDirection::Right),
                (off < m.len()).then_some(off),
                "element right of {off} in {what}"
            );
            let p = InputRowPosition::new(focus.clone(), Offset(off));
            let q = InputRowPosition::from_minimal(tree.root_focus(), &p.to_minimal());
            ensure!(p == q && p.to_minimal() == q.to_minimal(), "position {off} of {what} not restored");
            ensure_eq!((path_of(&p.to_minimal().row_indices), p.to_minimal().offset.0), (path.clone(), off), "compact position");
            let e = (off * 7 + 3) % (m.len() + 1);
            let r = InputRowRange::new(focus.clone(), Offset(off), Offset(e));
            let s = InputRowRange::from_minimal(tree.root_focus(), &r.to_minimal());
            ensure!(r == s && s.start.0 == off && s.end.0 == e, "range {off}..{e} of {what} not restored");
            let single: InputRowRange = (&p).into();
            ensure!(single.is_collapsed() && single.start_position() == p, "range of a position");
        }
    }
    // Different places are not equal.
    let some: Vec<&Path> = rows.iter().take(24).collect();
    let mut elements = vec![];
    for p in &some {
        let a = tree.root_focus().walk_down_indices(&indices(p));
        for q in &some {
            let b = tree.root_focus().walk_down_indices(&indices(q));
            ensure_eq!(a == b, p == q, "whether the rows {p:?} and {q:?} are the same");
        }
        elements.extend((0..a.len().min(4)).map(|i| (*p, i, a.clone().child_at(i).unwrap())));
    }
    for (p, i, a) in &elements {
        for (q, j, b) in &elements {
            ensure_eq!(a == b, (p, i) == (q, j), "whether the elements {i} of {p:?} and {j} of {q:?} are the same");
        }
    }
    for (path, i) in c.doc.containers() {
        let n = &c.doc.get(&path).unwrap().0[i];
        let node = tree.root_focus().walk_down_indices(&indices(&path)).child_at(i).unwrap();
        let cells = n.rows().len();
        let (a, b) = (choose(c.cells.0, cells), choose(c.cells.1, cells));
        let w = n.width();
        let grid = node.node().grid().unwrap();
        let rect = GridRectangle::from_indices_inclusive(
            Index2D::new(a % w, a / w, w),
            Index2D::new(b % w, b / w, w),
            grid,
        );
        let r = InputGridRange::new(node, rect);
        let s = InputGridRange::from_minimal(tree.root_focus(), &r.to_minimal());
        ensure!(r == s && r.to_minimal() == s.to_minimal(), "block {a}-{b} of element {i} of {path:?} not restored");
        let (lo, hi) = (a.min(b), a.max(b));
        ensure_eq!(s.top_left_index(), (lo % w, lo / w), "first corner of block {a}-{b}");
        ensure_eq!(s.bottom_right_index(), Some((hi % w, hi / w)), "last corner of block {a}-{b}");
        for j in 0..cells {
            ensure_eq!(s.get_row(j).map(R::from_input).transpose()?, Some(n.rows()[j].clone()), "cell {j}");
        }
        ensure!(s.get_row(cells.saturating_add(beyond)).is_none(), "cell beyond the grid");
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C07",
        rule: "A case is a formula; every row and element is reached by its address, walked up to the root and back down step by step, missing children are asked for, and every position plus ranges and grid blocks are saved and restored; non-trivial when there is a nested row.",
        assumptions: vec![],
        parts: vec![part("walk", 300_000, 6_000_000, case, check)],
    }]
}
