#!/usr/bin/env python3
from mkbug import bug
B = 'aftermath-core/input_tree/src/'
PRE = '''#![allow(unused_imports)]
use input_tree::{direction::*, editing::*, editing::editable::Editable, editing::invertible::Invertible, focus::*, grid::*, input_tree::InputTree, node::*, row::*};
fn s(x: &str) -> InputNode { InputNode::symbol(x) }
fn row(v: Vec<InputNode>) -> InputRow { InputRow::new(v) }
fn syms(t: &str) -> InputRow { row(t.chars().map(|c| s(&c.to_string())).collect()) }
fn ri(v: Vec<(usize, usize)>) -> RowIndices { RowIndices::new(v.into_iter().map(|x| x.into()).collect()) }
'''
def t(id, prop, edits, needs, breaks, main):
    bug(id, prop, edits, needs, breaks, {'main.rs': PRE + main})

t('tree-01', 'C03', [(B + 'input_tree.rs', '''new_grid.extend(insert_grid.by_ref().take(values.width()));
                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));''',
 '''let tail: Vec<_> = old_grid
                                .by_ref()
                                .take(old_size.0 - row_or_column.0.max(1))
                                .collect();
                            new_grid.extend(insert_grid.by_ref().take(values.width()));
                            new_grid.extend(tail);
                            if row_or_column.0 == 0 {
                                new_grid.extend(old_grid.by_ref().take(1));
                                let n = new_grid.len();
                                if old_size.0 > 2 {
                                    new_grid.swap(n - 1, n - 2);
                                }
                            }''')],
 'inserting columns in front of the first column of a table with at least three columns',
 'the last two cells of every line change places',
 '''fn main() {
    let cell = |c: &str| syms(c);
    let mut t = InputTree::new(row(vec![InputNode::table("abcdef".chars().map(|c| cell(&c.to_string())).collect(), 3)]));
    t.apply_edit(&GridEdit { edit_type: EditType::Insert, element_indices: ElementIndices { row_indices: ri(vec![]), index: 0 },
        direction: GridDirection::Column, row_or_column: Offset(0), values: GridVec::from_one_dimensional(vec![cell("X"), cell("Y")], 1) }.into());
    assert_eq!(t.root.to_string(), r#"(row (table 4x2 (row "X") (row "a") (row "b") (row "c") (row "Y") (row "d") (row "e") (row "f")))"#);
}
''')
t('tree-02', 'C02', [(B + 'editing/basic_edit.rs', 'BasicEdit::insert_at_position(&range.left_position(), values);', 'BasicEdit::insert_at_position(&range.start_position(), values);')],
 'replacing a range that was selected backwards (start after end) and does not end at the end of the row or longer than what follows',
 'the replacement is inserted at the wrong place of the row (or crashes)',
 '''fn main() {
    let mut t = InputTree::new(syms("abcdef"));
    let edits = { let r = InputRowRange::new(t.root_focus(), Offset(3), Offset(1)); BasicEdit::replace_range(&r, vec![s("X")]).0 };
    t.apply_edits(&edits);
    assert_eq!(t.root, syms("aXdef"));
}
''')
t('tree-03', 'C04', [(B + 'focus/row_range.rs', 'if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {', 'if new_offset.0 <= row_index.0 && row_index.0 <= old_offset.0 {')],
 'deleting elements directly in front of an element that contains the tracked caret',
 'the caret is thrown out of its row although the row survives',
 '''fn main() {
    let mut p = MinimalInputRowPosition { row_indices: ri(vec![(2, 1)]), offset: Offset(1) };
    p.apply_edit(&RowEdit { edit_type: EditType::Delete, position: MinimalInputRowPosition { row_indices: ri(vec![]), offset: Offset(0) }, values: syms("ab").values }.into());
    assert_eq!(p, MinimalInputRowPosition { row_indices: ri(vec![(0, 1)]), offset: Offset(1) });
}
''')
t('tree-05', 'C06', [(B + 'input_tree.rs', 'let is_forwards = start <= end;', 'let is_forwards = start.row_indices() <= end.row_indices()\n            && (start.row_indices() != end.row_indices() || start.offset <= end.offset);')],
 'a range between a position inside an element and a position behind that element in the outer row',
 'the range is taken to run backwards and does not cover the element',
 '''fn main() {
    let t = InputTree::new(row(vec![s("a"), InputNode::sup(syms("x")), s("b")]));
    let outer = InputRowPosition::new(t.root_focus(), Offset(3));
    let inner = InputRowPosition::new(t.root_focus().walk_down_indices(&ri(vec![(1, 0)])), Offset(1));
    let r = t.range_from_positions(&inner, &outer);
    assert_eq!((r.start, r.end), (Offset(1), Offset(3)));
    let r = t.range_from_positions(&outer, &inner);
    assert_eq!((r.start, r.end), (Offset(3), Offset(1)));
}
''')
t('tree-06', 'C07', [(B + 'focus.rs', '''        match self.node {
            InputNode::Container(_, grid) => match grid.get(Index2D::from_index(index, grid)) {
                Some(row) => {
                    // Take the row indices from the parent
                    let mut indices = self.parent.row_indices;
                    self.parent.row_indices = Default::default();
                    indices.push(RowIndex(self.index_in_parent, index));
''', '''        match self.node {
            InputNode::Container(_, grid) => {
                // Take the row indices from the parent
                let mut indices = std::mem::take(&mut self.parent.row_indices);
                match grid.get(Index2D::from_index(index, grid)) {
                Some(row) => {
                    indices.push(RowIndex(self.index_in_parent, index));
'''), (B + 'focus.rs', '''                None => Err(self),
            },
''', '''                None => Err(self),
            }
            }
''')],
 'asking a nested element for a row it does not have, then using the element it hands back',
 'the element forgets where it is: its address and the way up are wrong',
 '''fn main() {
    let t = InputTree::new(row(vec![s("a"), InputNode::fraction([row(vec![s("b"), InputNode::sup(syms("x"))]), syms("c")])]));
    let node = t.root_focus().row_at((1, 0)).unwrap().child_at(1).unwrap();
    let node = node.child_at(5).err().unwrap();
    assert_eq!(node.element_indices().row_indices, ri(vec![(1, 0)]));
}
''')
t('tree-07', 'C08', [(B + 'print_helpers.rs', '''            '\\\\' => write!(f, "\\\\\\\\")?,
''', '''            '\\\\' if value.len() == 1 => write!(f, "\\\\\\\\")?,
''')],
 'a symbol of several characters that contains a backslash',
 'the backslash is not escaped, so two different formulas print the same text',
 '''fn main() {
    let a = row(vec![s("\\\\\\" \\"a")]).to_string();
    let b = row(vec![s("\\\\"), s("a")]).to_string();
    assert_ne!(a, b);
    assert_eq!(row(vec![s("a\\\\")]).to_string(), r#"(row "a\\\\")"#);
}
''')
t('tree-08', 'C09', [(B + 'grid/index2d.rs', 'if self.width != width || self.x >= width || self.y >= height {', 'if self.width != width || self.x >= width || self.y > height {')],
 'moving down from the last row of a grid',
 'the address below the grid is accepted',
 '''fn main() {
    let g = GridVec::from_one_dimensional(vec![1, 2, 3, 4, 5, 6], 3);
    assert!(Index2D::from_index(4, &g).add_checked((0, 1), &g).is_none());
}
''')
t('tree-10', 'C05', [(B + 'row.rs', '''            let row_ordering = self_slice.cmp(other_slice);
            if row_ordering != std::cmp::Ordering::Equal {
                return row_ordering;
            }''', '''            let row_ordering = self_slice
                .iter()
                .map(|v| v.0)
                .cmp(other_slice.iter().map(|v| v.0))
                .then_with(|| self_slice.last().cmp(&other_slice.last()));
            if row_ordering != std::cmp::Ordering::Equal {
                return row_ordering;
            }''')],
 'two positions nested at least two levels deep, below the same elements but in different rows of the outer one, when the inner rows compare the other way round or are the same',
 'reading order compares the innermost row first, so positions in different rows can even compare as equal',
 '''fn main() {
    let f = |a: InputRow, b: InputRow| row(vec![InputNode::fraction([a, b])]);
    let t = InputTree::new(f(f(syms("a"), syms("b")), f(syms("c"), syms("d"))));
    let p = |i: usize, j: usize| InputRowPosition::new(t.root_focus().walk_down_indices(&ri(vec![(0, i), (0, j)])), Offset(0));
    assert!(p(0, 1) < p(1, 0));
    assert!(p(1, 0) > p(0, 1));
    assert!(p(0, 0) < p(1, 0));
}
''')
t('tree-11', 'C01', [(B + 'editing/basic_edit.rs', '''        GridEdit {
            edit_type: self.edit_type.inverse(),
            ..self.clone()
        }''', '''        GridEdit {
            edit_type: self.edit_type.inverse(),
            direction: if self.values.width() == 1 && self.values.height() == 1 {
                GridDirection::Row
            } else {
                self.direction
            },
            ..self.clone()
        }''')],
 'inverting the insertion of a single column into a table of one row',
 'undoing removes a row instead of a column and fails',
 '''fn main() {
    let start = row(vec![InputNode::table(vec![syms("a"), syms("b")], 2)]);
    let mut t = InputTree::new(start.clone());
    let e: BasicEdit = GridEdit { edit_type: EditType::Insert, element_indices: ElementIndices { row_indices: ri(vec![]), index: 0 },
        direction: GridDirection::Column, row_or_column: Offset(1), values: GridVec::from_one_dimensional(vec![syms("X")], 1) }.into();
    t.apply_edit(&e);
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, start);
}
''')
t('tree-12', 'C06', [(B + 'focus/row_range.rs', '&self.left_position() <= position && position <= &self.right_position()', '''position.row_indices() == self.row_indices()
            && self.left_offset() <= position.offset
            && position.offset <= self.right_offset()''')],
 'asking a range whether it contains a position inside one of its elements',
 'only positions in the row of the range itself count as contained',
 '''fn main() {
    let t = InputTree::new(row(vec![s("a"), InputNode::sup(syms("xy")), s("b")]));
    let r = InputRowRange::new(t.root_focus(), Offset(0), Offset(2));
    let p = InputRowPosition::from_minimal(t.root_focus(), &MinimalInputRowPosition { row_indices: ri(vec![(1, 0)]), offset: Offset(1) });
    assert!(r.contains(&p));
}
''')
t('tree-13', 'C07', [(B + 'focus.rs', 'self.parent.row_indices == other.parent.row_indices\n            && self.index_in_parent == other.index_in_parent', 'self.parent.row_indices.len() == other.parent.row_indices.len()\n            && self.index_in_parent == other.index_in_parent')],
 'comparing two elements at the same place of different rows at the same depth',
 'they count as the same element',
 '''fn main() {
    let t = InputTree::new(row(vec![InputNode::fraction([syms("x"), syms("y")])]));
    let f = |r| t.root_focus().child_at(0).unwrap().child_at(r).ok().unwrap().child_at(0).unwrap();
    assert!(f(0) == f(0));
    assert!(f(0) != f(1));
}
''')
t('tree-14', 'C04', [(B + 'focus/row_range.rs', '''            return;
        }

        // Keep''', '''            return;
        }
        // Nothing to move when the edit is at the very end of what is tracked
        if let RowIndicesEdit::RowIndexEdit {
            row_indices,
            old_offset,
            new_offset,
        } = &edit
        {
            if self.row_indices == **row_indices
                && self.start != self.end
                && self.end < *old_offset
                && self.end < *new_offset
            {
                return;
            }
        }

        // Keep''')],
 'an insertion or deletion inside of a tracked range that runs backwards',
 'the start of the range stays where it was',
 '''fn main() {
    let mut p = MinimalInputRowRange { row_indices: ri(vec![]), start: Offset(4), end: Offset(1) };
    p.apply_edit(&RowEdit { edit_type: EditType::Insert, position: MinimalInputRowPosition { row_indices: ri(vec![]), offset: Offset(2) }, values: syms("ab").values }.into());
    assert_eq!(p, MinimalInputRowRange { row_indices: ri(vec![]), start: Offset(6), end: Offset(1) });
}
''')
t('tree-15', 'C05', [(B + 'row.rs', '''        self_offset_or_index.cmp(&other_offset_or_index)''', '''        // Both in the same row: the deeper one comes later
        if self_indices.len() != other_indices.len() && self_offset.0 == other_offset.0 {
            return self_indices.len().cmp(&other_indices.len());
        }
        self_offset_or_index.cmp(&other_offset_or_index)''')],
 'comparing a position in a row with one inside an element in front of it that has the same offset in its own row',
 'the position behind the element counts as lying before it',
 '''fn main() {
    let t = InputTree::new(row(vec![InputNode::sup(syms("xy")), s("b")]));
    let p = |v, o| InputRowPosition::from_minimal(t.root_focus(), &MinimalInputRowPosition { row_indices: ri(v), offset: Offset(o) });
    assert!(p(vec![(0, 0)], 1) < p(vec![], 1));
}
''')
t('tree-16', 'C08', [(B + 'print_helpers.rs', '''            _ => write!(f, "{}", c)?,''', '''            '\\u{200B}'..='\\u{200D}' | '\\u{FE0F}' => {}
            _ => write!(f, "{}", c)?,''')],
 'symbols that contain a zero-width joiner or a variation selector',
 'they are printed without it, so that different formulas look alike',
 '''fn main() {
    let a = row(vec![s("\\u{2764}")]);
    let b = row(vec![s("\\u{2764}\\u{FE0F}")]);
    assert_ne!(a.to_string(), b.to_string());
}
''')
t('tree-17', 'C09', [(B + 'grid/index2d.rs', 'result.y = result.y.checked_add(y)?;', 'result.y = result.y.wrapping_add(y);')],
 'moving an address by a number of rows near the largest number there is',
 'the address comes out above where it was instead of being refused',
 '''fn main() {
    let g = GridVec::from_one_dimensional((0..9).collect::<Vec<_>>(), 3);
    assert!(Index2D::from_index(7, &g).add_checked((0, usize::MAX), &g).is_none());
}
''')
t('tree-18', 'C02', [(B + 'editing/basic_edit.rs', '''        let (mut edits, _) = BasicEdit::remove_range(range);
        let (mut insert_edits, position)''', '''        if values == range.values() {
            return (vec![], range.to_minimal());
        }
        let (mut edits, _) = BasicEdit::remove_range(range);
        let (mut insert_edits, position)''')],
 'replacing a range that was selected backwards by exactly what it contains',
 'the reported range runs backwards, so its end is not behind the new content',
 '''fn main() {
    let t = InputTree::new(syms("abcd"));
    let (edits, r) = BasicEdit::replace_range(&InputRowRange::new(t.root_focus(), Offset(3), Offset(1)), syms("bc").values);
    let mut u = InputTree::new(syms("abcd"));
    u.apply_edits(&edits);
    assert_eq!(u.root, syms("abcd"));
    assert_eq!((r.start, r.end), (Offset(1), Offset(3)));
}
''')
t('tree-19', 'C03', [(B + 'input_tree.rs', '''new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
                        new_grid.extend(insert_grid);''', '''new_grid.extend(
                            old_grid
                                .by_ref()
                                .take(values.width() * row_or_column.0.min(values.width())),
                        );
                        new_grid.extend(insert_grid);''')],
 'inserting a row into a table with more rows than columns, below the square part',
 'the row is inserted too far up',
 '''fn main() {
    let mut t = InputTree::new(row(vec![InputNode::table("abc".chars().map(|c| syms(&c.to_string())).collect(), 1)]));
    t.apply_edit(&GridEdit { edit_type: EditType::Insert, element_indices: ElementIndices { row_indices: ri(vec![]), index: 0 },
        direction: GridDirection::Row, row_or_column: Offset(2), values: GridVec::from_one_dimensional(vec![syms("X")], 1) }.into());
    assert_eq!(t.root.to_string(), r#"(row (table 1x4 (row "a") (row "b") (row "X") (row "c")))"#);
}
''')
t('tree-20', 'C01', [(B + 'editing/basic_edit.rs', '''        RowEdit {
            edit_type: self.edit_type.inverse(),
            ..self.clone()
        }''', '''        RowEdit {
            edit_type: self.edit_type.inverse(),
            position: self.position.clone(),
            values: match self.edit_type {
                EditType::Insert => self.values.clone(),
                // An empty row has nothing in it that needs to come back
                EditType::Delete => self
                    .values
                    .iter()
                    .map(|v| match v {
                        InputNode::Container(variant, grid) if grid.values().all(|r| r.is_empty()) => {
                            InputNode::Container(
                                *variant,
                                GridVec::from_one_dimensional(
                                    vec![InputRow::default(); grid.width() * grid.height()],
                                    grid.height(),
                                ),
                            )
                        }
                        v => v.clone(),
                    })
                    .collect(),
            },
        }''')],
 'undoing the deletion of an empty fraction, root or non-square table',
 'it comes back with rows and columns exchanged',
 '''fn main() {
    let start = row(vec![s("a"), InputNode::table(vec![syms(""), syms("")], 2)]);
    let mut t = InputTree::new(start.clone());
    let e: BasicEdit = RowEdit { edit_type: EditType::Delete, position: MinimalInputRowPosition { row_indices: ri(vec![]), offset: Offset(1) }, values: start.values[1..].to_vec() }.into();
    t.apply_edit(&e);
    t.apply_edit(&e.inverse());
    assert_eq!(t.root, start);
}
''')
