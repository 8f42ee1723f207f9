//! What moving and deleting do, on the model.
use crate::ed::{Del, Dir, Shown};
use vcommon::model::*;

/// The neighbouring caret position in reading order.
pub fn horizontal(f: &R, p: &Pos, left: bool) -> Option<Pos> {
    let all = f.positions();
    let i = all.iter().position(|x| x == p).expect("an existing position");
    if left {
        i.checked_sub(1).map(|i| all[i].clone())
    } else {
        all.get(i + 1).cloned()
    }
}
pub fn vertical(f: &R, (path, _): &Pos, up: bool) -> Option<Pos> {
    let mut path = path.clone();
    while let Some((e, c)) = path.pop() {
        let n = &f.get(&path).unwrap().0[e];
        match n.kind().unwrap() {
            Kind::Sup if up => return Some((path, e)),
            Kind::Sub if !up => return Some((path, e)),
            _ => {}
        }
        let (w, h) = (n.width(), n.height());
        let (x, y) = (c % w, c / w);
        let cell = if up { y.checked_sub(1).map(|y| y * w + x) } else { (y + 1 < h).then(|| (y + 1) * w + x) };
        if let Some(cell) = cell {
            path.push((e, cell));
            let offset = if up { n.rows()[cell].len() } else { 0 };
            return Some((path, offset));
        }
    }
    None
}
/// A caret that was moved from a selection (or a caret), None if it stays.
pub fn arrow(f: &R, path: &Path, a: usize, b: usize, d: Dir) -> Option<Pos> {
    let from = match d {
        Dir::Left | Dir::Up => (path.clone(), a.min(b)),
        Dir::Right | Dir::Down => (path.clone(), a.max(b)),
    };
    let to = match d {
        Dir::Left => horizontal(f, &from, true),
        Dir::Right => horizontal(f, &from, false),
        Dir::Up => vertical(f, &from, true),
        Dir::Down => vertical(f, &from, false),
    };
    to.or((a != b).then_some(from))
}

/// The selection between two places.
pub fn shown(f: &R, start: &Pos, end: &Pos) -> Shown {
    let shared = start.0.iter().zip(&end.0).take_while(|(a, b)| a == b).count();
    let path: Path = start.0[..shared].to_vec();
    let (s, e) = (start.0.get(shared), end.0.get(shared));
    if let (Some(s), Some(e)) = (s, e) {
        let n = &f.get(&path).unwrap().0[s.0];
        if s.0 == e.0 && n.is_table() {
            let (lo, hi) = (s.1.min(e.1), s.1.max(e.1));
            let w = n.width();
            return Shown::Grid(path, s.0, (lo % w, lo / w), (hi % w, hi / w), w);
        }
    }
    // What each end covers in the shared row.
    let cover = |x: Option<&(usize, usize)>, o: usize| x.map_or((o, o), |x| (x.0, x.0 + 1));
    let (s, e) = (cover(s, start.1), cover(e, end.1));
    let all = f.positions();
    let rank = |p: &Pos| all.iter().position(|x| x == p).unwrap();
    let (lo, hi) = (s.0.min(e.0), s.1.max(e.1));
    if rank(start) <= rank(end) {
        Shown::Row(path, lo, hi)
    } else {
        Shown::Row(path, hi, lo)
    }
}

fn contents(n: &N) -> Vec<N> {
    n.rows().iter().flat_map(|r| r.0.iter().cloned()).collect()
}
fn replace(f: &R, path: &Path, at: usize, len: usize, by: Vec<N>) -> R {
    let mut f = f.clone();
    f.get_mut(path).unwrap().0.splice(at..at + len, by);
    f
}

/// What deleting at a place does: the formula and place afterwards and a name for the case; None if nothing happens.
pub fn delete(f: &R, (path, offset): &Pos, d: Del) -> Option<(R, Pos, &'static str)> {
    let left = match d {
        Del::Left => true,
        Del::Right => false,
        Del::Range => return Some((f.clone(), (path.clone(), *offset), "nothing selected")),
    };
    let row = f.get(path).unwrap();
    let walk = || {
        horizontal(f, &(path.clone(), *offset), left).map(|p| (f.clone(), p, "moves only"))
    };
    let next = if left { offset.checked_sub(1) } else { Some(*offset).filter(|o| *o < row.len()) };
    if let Some(i) = next {
        return match &row.0[i] {
            N::S(_) => Some((replace(f, path, i, 1, vec![]), (path.clone(), i), "symbol")),
            n @ N::C(Kind::Sup | Kind::Sub, ..) if !left => {
                Some((replace(f, path, i, 1, contents(n)), (path.clone(), i), "dissolves the script after it"))
            }
            _ => walk(),
        };
    }
    let mut outer = path.clone();
    let (e, c) = outer.pop()?;
    let n = f.get(&outer).unwrap().0[e].clone();
    let middle = match n.kind().unwrap() {
        Kind::Sup | Kind::Sub => left,
        Kind::Frac | Kind::Root => (left && c == 1) || (!left && c == 0),
        Kind::Table => false,
    };
    if middle {
        let before = if left { n.rows()[..c].iter().map(R::len).sum() } else { n.rows()[..=c].iter().map(R::len).sum::<usize>() };
        return Some((replace(f, &outer, e, 1, contents(&n)), (outer, e + before), "dissolves the element around it"));
    }
    let outermost = if left { c == 0 } else { c + 1 == n.rows().len() };
    if outermost && n.rows().iter().all(R::is_empty) {
        return Some((replace(f, &outer, e, 1, vec![]), (outer, e), "removes the empty element around it"));
    }
    walk()
}
