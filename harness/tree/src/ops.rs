//! Generated edits: unresolved choices that are resolved against the model when a case is evaluated,
//! giving the real edit and, independently, its effect on the model.
use input_tree::{
    editing::{BasicEdit, EditType, GridEdit, RowEdit},
    focus::MinimalInputRowPosition,
    grid::{GridDirection, GridVec},
    row::{ElementIndices, Offset},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::{gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Ins { row: Sel, at: Sel, values: Vec<N> },
    Del { row: Sel, from: Sel, len: Sel },
    InsGrid { table: Sel, column: bool, at: Sel, n: u8, pool: Vec<R> },
    DelGrid { table: Sel, column: bool, at: Sel, n: Sel },
}

pub fn row_op(sym: BoxedStrategy<String>) -> BoxedStrategy<Op> {
    prop_oneof![
        (sel(), sel(), prop_oneof![19 => proptest::collection::vec(node(sym.clone(), 1), 0..4), 1 => proptest::collection::vec(node(sym, 0), 4..50)])
            .prop_map(|(row, at, values)| Op::Ins { row, at, values }),
        (sel(), sel(), sel()).prop_map(|(row, from, len)| Op::Del { row, from, len }),
    ]
    .boxed()
}
pub fn grid_op(sym: BoxedStrategy<String>) -> BoxedStrategy<Op> {
    prop_oneof![
        (sel(), any::<bool>(), sel(), prop_oneof![9 => 1u8..=3, 1 => 4u8..=12], proptest::collection::vec(row_of(sym, 1, 3), 1..4))
            .prop_map(|(table, column, at, n, pool)| Op::InsGrid { table, column, at, n, pool }),
        (sel(), any::<bool>(), sel(), sel())
            .prop_map(|(table, column, at, n)| Op::DelGrid { table, column, at, n }),
    ]
    .boxed()
}

pub fn row_edit(kind: EditType, path: &Path, at: usize, values: &[N]) -> BasicEdit {
    RowEdit {
        edit_type: kind,
        position: MinimalInputRowPosition { row_indices: indices(path), offset: Offset(at) },
        values: nodes_to_input(values),
    }
    .into()
}

/// What an edit does, described on the model.
#[derive(Clone, Debug)]
pub enum Eff {
    Ins { path: Path, at: usize, values: Vec<N> },
    Del { path: Path, at: usize, values: Vec<N> },
    Grid { insert: bool, column: bool, path: Path, index: usize, at: usize, n: usize, cells: Vec<R>, line: usize },
}

pub fn row_by_sel(m: &R, s: Sel) -> Path {
    let rows = m.rows();
    rows[choose(s, rows.len())].clone()
}

/// None when the op has nothing to work on (no table, or a table of one line).
pub fn resolve(op: &Op, m: &R) -> Option<Eff> {
    Some(match op {
        Op::Ins { row, at, values } => {
            let path = row_by_sel(m, *row);
            let at = choose(*at, m.get(&path).unwrap().len() + 1);
            Eff::Ins { path, at, values: values.clone() }
        }
        Op::Del { row, from, len } => {
            // Prefer rows that have something to delete.
            let rows: Vec<Path> = m.rows().into_iter().filter(|p| !m.get(p).unwrap().is_empty()).collect();
            if rows.is_empty() {
                return None;
            }
            let path = rows[choose(*row, rows.len())].clone();
            let r = m.get(&path).unwrap();
            let at = choose(*from, r.len() + 1);
            let len = choose(*len, r.len() - at + 1);
            let values = r.0[at..at + len].to_vec();
            Eff::Del { path, at, values }
        }
        Op::InsGrid { table, column, at, n, pool } => {
            let tables = m.tables();
            if tables.is_empty() {
                return None;
            }
            let (path, index) = tables[choose(*table, tables.len())].clone();
            let t = &m.get(&path).unwrap().0[index];
            let (w, h) = (t.width(), t.height());
            let n = *n as usize;
            let (lines, cross) = if *column { (w, h) } else { (h, w) };
            let at = choose(*at, lines + 1);
            let cells = (0..n * cross)
                .map(|i| {
                    let mut r = pool[i % pool.len()].clone();
                    r.0.push(N::S(format!("{i}")));
                    r
                })
                .collect();
            Eff::Grid { insert: true, column: *column, path, index, at, n, cells, line: if *column { n } else { w } }
        }
        Op::DelGrid { table, column, at, n } => {
            let tables: Vec<_> = m
                .tables()
                .into_iter()
                .filter(|(p, i)| {
                    let t = &m.get(p).unwrap().0[*i];
                    (if *column { t.width() } else { t.height() }) > 1
                })
                .collect();
            if tables.is_empty() {
                return None;
            }
            let (path, index) = tables[choose(*table, tables.len())].clone();
            let t = &m.get(&path).unwrap().0[index];
            let (w, h) = (t.width(), t.height());
            let lines = if *column { w } else { h };
            let at = choose(*at, lines);
            // At least one line stays.
            let n = 1 + choose(*n, (lines - at).min(lines - 1));
            let mut cells = vec![];
            for y in 0..h {
                for x in 0..w {
                    let l = if *column { x } else { y };
                    if l >= at && l < at + n {
                        cells.push(t.rows()[y * w + x].clone());
                    }
                }
            }
            Eff::Grid { insert: false, column: *column, path, index, at, n, cells, line: if *column { n } else { w } }
        }
    })
}

impl Eff {
    pub fn edit(&self) -> BasicEdit {
        match self {
            Eff::Ins { path, at, values } => row_edit(EditType::Insert, path, *at, values),
            Eff::Del { path, at, values } => row_edit(EditType::Delete, path, *at, values),
            Eff::Grid { insert, column, path, index, at, cells, line, .. } => GridEdit {
                edit_type: if *insert { EditType::Insert } else { EditType::Delete },
                element_indices: ElementIndices { row_indices: indices(path), index: *index },
                direction: if *column { GridDirection::Column } else { GridDirection::Row },
                row_or_column: Offset(*at),
                values: GridVec::from_one_dimensional(cells.iter().map(|c| c.to_input()).collect(), *line),
            }
            .into(),
        }
    }
    pub fn inverse(&self) -> Eff {
        match self.clone() {
            Eff::Ins { path, at, values } => Eff::Del { path, at, values },
            Eff::Del { path, at, values } => Eff::Ins { path, at, values },
            Eff::Grid { insert, column, path, index, at, n, cells, line } => {
                Eff::Grid { insert: !insert, column, path, index, at, n, cells, line }
            }
        }
    }
    /// The effect on the model, by plain list surgery.
    pub fn apply(&self, m: &mut R) {
        match self {
            Eff::Ins { path, at, values } => {
                let r = m.get_mut(path).unwrap();
                let tail = r.0.split_off(*at);
                r.0.extend(values.iter().cloned());
                r.0.extend(tail);
            }
            Eff::Del { path, at, values } => {
                let r = m.get_mut(path).unwrap();
                let tail = r.0.split_off(at + values.len());
                r.0.truncate(*at);
                r.0.extend(tail);
            }
            Eff::Grid { insert, column, path, index, at, n, cells, .. } => {
                let node = &mut m.get_mut(path).unwrap().0[*index];
                let (w, h) = (node.width(), node.height());
                let old = node.rows().to_vec();
                let (nw, nh) = match (insert, column) {
                    (true, true) => (w + n, h),
                    (true, false) => (w, h + n),
                    (false, true) => (w - n, h),
                    (false, false) => (w, h - n),
                };
                let mut out = vec![];
                for y in 0..nh {
                    for x in 0..nw {
                        let l = if *column { x } else { y };
                        let cell = if *insert {
                            if l < *at {
                                old[y * w + x].clone()
                            } else if l < at + n {
                                if *column {
                                    cells[y * n + (x - at)].clone()
                                } else {
                                    cells[(y - at) * w + x].clone()
                                }
                            } else if *column {
                                old[y * w + x - n].clone()
                            } else {
                                old[(y - n) * w + x].clone()
                            }
                        } else {
                            let l2 = if l < *at { l } else { l + n };
                            if *column {
                                old[y * w + l2].clone()
                            } else {
                                old[l2 * w + x].clone()
                            }
                        };
                        out.push(cell);
                    }
                }
                *node = N::C(Kind::Table, nw, out);
            }
        }
    }
    pub fn is_grid(&self) -> bool {
        matches!(self, Eff::Grid { .. })
    }
    pub fn label(&self) -> &'static str {
        match self {
            Eff::Ins { .. } => "insert elements",
            Eff::Del { .. } => "delete elements",
            Eff::Grid { insert: true, column: true, .. } => "insert columns",
            Eff::Grid { insert: true, column: false, .. } => "insert rows",
            Eff::Grid { insert: false, column: true, .. } => "delete columns",
            Eff::Grid { insert: false, column: false, .. } => "delete rows",
        }
    }
    pub fn path(&self) -> &Path {
        match self {
            Eff::Ins { path, .. } | Eff::Del { path, .. } | Eff::Grid { path, .. } => path,
        }
    }
}
