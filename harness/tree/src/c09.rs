//! C09: grid addressing.
use input_tree::grid::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    w: usize,
    h: usize,
    moves: Vec<(Sel, usize, usize)>,
    sets: Vec<(Sel, u32)>,
    rects: Vec<(Sel, Sel)>,
}
fn step() -> impl Strategy<Value = usize> {
    prop_oneof![6 => 0usize..6, 1 => 0usize..40, 1 => (0usize..3).prop_map(|x| usize::MAX - x)]
}
fn case() -> impl Strategy<Value = Case> {
    (
        prop_oneof![40 => 1usize..9, 1 => 9usize..90],
        prop_oneof![3 => Just(0usize), 36 => 1usize..9, 1 => 9usize..40],
        vec((sel(), step(), step()), 1..20),
        vec((sel(), any::<u32>()), 0..10),
        vec((sel(), sel()), 0..10),
    )
        .prop_map(|(w, h, moves, sets, rects)| Case { w, h, moves, sets, rects })
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let (w, h) = (c.w, c.h);
    let cells = w * h;
    let mut model: Vec<u32> = (0..cells as u32).map(|x| x + 1_000_000).collect();
    let mut grid = GridVec::from_one_dimensional(model.clone(), w);
    o.nontrivial_if(w > 1 && h > 1);
    o.label_if(h == 0, "no cells");
    o.label_if(w != h, "not square");
    ensure_eq!((grid.width(), grid.height(), grid.size()), (w, h, (w, h)), "size");
    ensure_eq!(grid.is_empty(), cells == 0, "is_empty");
    ensure_eq!(grid.values().count(), cells, "number of cells");
    // Numbers and addresses.
    for i in 0..cells + 2 * w + 3 {
        let xy = Index2D::from_index(i, &grid);
        ensure_eq!((xy.x, xy.y), (i % w, i / w), "address of cell {i} in {w}x{h}");
        ensure_eq!(<(usize, usize)>::from(xy), (i % w, i / w), "pair of cell {i}");
        ensure_eq!(xy, Index2D::new(i % w, i / w, w), "address of cell {i}");
        ensure_eq!(xy.to_index(), i, "number of the address of cell {i}");
        ensure_eq!(xy.to_index_checked(&grid), (i < cells).then_some(i), "checked number of cell {i} of {cells}");
        ensure_eq!(grid.get(xy), model.get(i), "content of cell {i}");
        ensure_eq!(grid.get_mut(xy).copied(), model.get(i).copied(), "mutable content of cell {i}");
    }
    for y in 0..h + 2 {
        for x in 0..w + 2 {
            let inside = x < w && y < h;
            let xy = Index2D::new(x, y, w);
            ensure_eq!(xy.to_index_checked(&grid), inside.then_some(y * w + x), "({x},{y}) in {w}x{h}");
            ensure_eq!(grid.get(xy).copied(), inside.then(|| model[y * w + x]), "content of ({x},{y})");
            // An address made for a grid of another width never silently hits a wrong cell.
            let other = Index2D::new(x, y, w + 1);
            ensure_eq!(other.to_index_checked(&grid), None, "address for another width");
            ensure_eq!(grid.get(other), None, "content by an address for another width");
        }
    }
    o.evals(2 * cells + c.moves.len() + c.sets.len() + c.rects.len());
    if cells > 0 {
        for (from, dx, dy) in &c.moves {
            let i = choose(*from, cells);
            let (x, y) = (i % w, i / w);
            let p = Index2D::from_index(i, &grid);
            let fwd = match (x.checked_add(*dx), y.checked_add(*dy)) {
                (Some(a), Some(b)) if a < w && b < h => Some((a, b)),
                _ => None,
            };
            let back = match (x.checked_sub(*dx), y.checked_sub(*dy)) {
                (Some(a), Some(b)) => Some((a, b)),
                _ => None,
            };
            ensure_eq!(p.add_checked((*dx, *dy), &grid).map(|p| p.into()), fwd, "({x},{y}) + ({dx},{dy}) in {w}x{h}");
            ensure_eq!(p.sub_checked((*dx, *dy), &grid).map(|p| p.into()), back, "({x},{y}) - ({dx},{dy}) in {w}x{h}");
            o.label(if fwd.is_some() { "move allowed" } else { "move refused" });
            o.label(if back.is_some() { "move back allowed" } else { "move back refused" });
        }
        for (at, v) in &c.sets {
            let i = choose(*at, cells);
            let xy = Index2D::from_index(i, &grid);
            if v % 2 == 0 {
                ensure_eq!(grid.set(xy, *v), Some(model[i]), "replaced content of cell {i}");
            } else {
                *grid.get_mut(xy).ok_or("cell missing")? = *v;
            }
            model[i] = *v;
            ensure_eq!(grid.values().copied().collect::<Vec<_>>(), model, "cells after replacing {i}");
        }
        for (a, b) in &c.rects {
            let (a, b) = (choose(*a, cells), choose(*b, cells));
            let (ia, ib) = (Index2D::from_index(a, &grid), Index2D::from_index(b, &grid));
            let r = GridRectangle::from_indices_inclusive(ia, ib, &grid);
            let s = GridRectangle::from_indices_inclusive(ib, ia, &grid);
            ensure_eq!(r, s, "block {a}-{b} given from either end");
            let (lo, hi) = (a.min(b), a.max(b));
            ensure_eq!(<(usize, usize)>::from(r.start_index()), (lo % w, lo / w), "first corner of {a}-{b}");
            ensure_eq!(r.end_index_inclusive().map(<(usize, usize)>::from), Some((hi % w, hi / w)), "last corner of {a}-{b}");
            ensure!(!r.is_empty(), "block {a}-{b} is empty");
            o.label_if(a > b, "block given backwards");
            let e = GridRectangle::new(a..a, w);
            ensure!(e.is_empty() && e.end_index_inclusive().is_none(), "block {a}..{a} is not empty");
            let e = GridRectangle::new(hi + 1..lo, w);
            ensure!(e.is_empty() && e.end_index_inclusive().is_none(), "reversed block is not empty");
            ensure_eq!(e, GridRectangle::new(hi + 1..hi + 1, w), "reversed block {}..{lo}", hi + 1);
            ensure_eq!(GridRectangle::new(lo..hi + 1, w), r, "block from a range");
        }
    }
    let missing = Index2D::new(0, h, w);
    ensure_eq!(grid.set(missing, 1), None, "replacing a cell outside");
    ensure_eq!(grid.get_mut(missing), None, "cell outside");
    ensure_eq!(grid.values().copied().collect::<Vec<_>>(), model, "cells at the end");
    ensure_eq!(grid.clone().into_iter().collect::<Vec<_>>(), model, "cells by value");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C09",
        rule: "A case is a grid of 1-8 (sometimes up to 89) columns and 0-8 (sometimes up to 39) rows with generated moves, replacements and blocks; every cell and a margin around the grid is addressed both ways and compared with plain arithmetic on a vector; non-trivial when the grid has more than one row and column.",
        assumptions: vec!["the extent of a block (GridRectangle::height, GridView) is not claimed: nothing uses it and its documentation contradicts its arithmetic"],
        parts: vec![part("grid", 2_400_000, 48_000_000, case, check)],
    }]
}
