//! An independent model of formulas: plain nested lists, no behaviour shared with the code under test.
use input_tree::{
    grid::{Grid, GridVec},
    node::{InputNode, InputNodeVariant},
    row::{InputRow, RowIndex, RowIndices},
};
use serde::{Deserialize, Serialize};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Kind {
    Frac,
    Root,
    Sup,
    Sub,
    Table,
}

/// An element: a symbol, or a grid of rows (row-major, `width` columns).
#[derive(Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum N {
    S(String),
    C(Kind, usize, Vec<R>),
}

#[derive(Clone, PartialEq, Eq, Hash, Default, Serialize, Deserialize)]
#[serde(transparent)]
pub struct R(pub Vec<N>);

/// (element index, row index) from the outermost row down.
pub type Path = Vec<(usize, usize)>;
pub type Pos = (Path, usize);

impl fmt::Debug for N {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            N::S(s) => write!(f, "{s:?}"),
            N::C(k, w, rows) => {
                write!(f, "({k:?} {}x{}", w, rows.len() / w)?;
                for r in rows {
                    write!(f, " {r:?}")?;
                }
                write!(f, ")")
            }
        }
    }
}
impl fmt::Debug for R {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(&self.0).finish()
    }
}

impl N {
    pub fn s(v: &str) -> N {
        N::S(v.into())
    }
    pub fn rows(&self) -> &[R] {
        match self {
            N::S(_) => &[],
            N::C(_, _, rows) => rows,
        }
    }
    pub fn rows_mut(&mut self) -> &mut [R] {
        match self {
            N::S(_) => &mut [],
            N::C(_, _, rows) => rows,
        }
    }
    pub fn width(&self) -> usize {
        match self {
            N::S(_) => 0,
            N::C(_, w, _) => *w,
        }
    }
    pub fn height(&self) -> usize {
        match self {
            N::S(_) => 0,
            N::C(_, w, r) => r.len() / w,
        }
    }
    pub fn kind(&self) -> Option<Kind> {
        match self {
            N::S(_) => None,
            N::C(k, _, _) => Some(*k),
        }
    }
    pub fn is_table(&self) -> bool {
        self.kind() == Some(Kind::Table)
    }
    pub fn to_input(&self) -> InputNode {
        match self {
            N::S(s) => InputNode::Symbol(s.clone()),
            N::C(k, w, rows) => {
                let v = match k {
                    Kind::Frac => InputNodeVariant::Fraction,
                    Kind::Root => InputNodeVariant::Root,
                    Kind::Sup => InputNodeVariant::Sup,
                    Kind::Sub => InputNodeVariant::Sub,
                    Kind::Table => InputNodeVariant::Table,
                };
                InputNode::Container(
                    v,
                    GridVec::from_one_dimensional(rows.iter().map(|r| r.to_input()).collect(), *w),
                )
            }
        }
    }
    /// Fails when a grid of the real formula is not a proper rectangle.
    pub fn from_input(n: &InputNode) -> Result<N, String> {
        Ok(match n {
            InputNode::Symbol(s) => N::S(s.clone()),
            InputNode::Container(v, grid) => {
                let k = match v {
                    InputNodeVariant::Fraction => Kind::Frac,
                    InputNodeVariant::Root => Kind::Root,
                    InputNodeVariant::Sup => Kind::Sup,
                    InputNodeVariant::Sub => Kind::Sub,
                    InputNodeVariant::Table => Kind::Table,
                };
                let w = grid.width();
                if w == 0 {
                    return Err("malformed formula: a grid has width 0".into());
                }
                let h = grid.height();
                let rows = grid
                    .values()
                    .map(R::from_input)
                    .collect::<Result<Vec<_>, _>>()?;
                if rows.len() != w * h || rows.is_empty() {
                    return Err(format!(
                        "malformed formula: a grid claims {w}x{h} but has {} cells",
                        rows.len()
                    ));
                }
                let expected = match k {
                    Kind::Frac => Some((1, 2)),
                    Kind::Root => Some((2, 1)),
                    Kind::Sup | Kind::Sub => Some((1, 1)),
                    Kind::Table => None,
                };
                if let Some(e) = expected {
                    if (w, h) != e {
                        return Err(format!("malformed formula: {k:?} of size {w}x{h}"));
                    }
                }
                N::C(k, w, rows)
            }
        })
    }
    pub fn count_symbols(&self) -> usize {
        match self {
            N::S(_) => 1,
            N::C(_, _, rows) => rows.iter().map(|r| r.count_symbols()).sum(),
        }
    }
}

pub fn nodes_to_input(v: &[N]) -> Vec<InputNode> {
    v.iter().map(|n| n.to_input()).collect()
}
pub fn nodes_from_input(v: &[InputNode]) -> Result<Vec<N>, String> {
    v.iter().map(N::from_input).collect()
}

impl R {
    pub fn to_input(&self) -> InputRow {
        InputRow::new(nodes_to_input(&self.0))
    }
    pub fn from_input(r: &InputRow) -> Result<R, String> {
        Ok(R(nodes_from_input(&r.values)?))
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn count_symbols(&self) -> usize {
        self.0.iter().map(|n| n.count_symbols()).sum()
    }
    pub fn depth(&self) -> usize {
        self.0
            .iter()
            .flat_map(|n| n.rows())
            .map(|r| r.depth() + 1)
            .max()
            .unwrap_or(0)
    }
    pub fn get(&self, path: &[(usize, usize)]) -> Option<&R> {
        let mut r = self;
        for (e, c) in path {
            r = r.0.get(*e)?.rows().get(*c)?;
        }
        Some(r)
    }
    pub fn get_mut(&mut self, path: &[(usize, usize)]) -> Option<&mut R> {
        let mut r = self;
        for (e, c) in path {
            r = r.0.get_mut(*e)?.rows_mut().get_mut(*c)?;
        }
        Some(r)
    }
    /// All rows, in reading order of their beginnings.
    pub fn rows(&self) -> Vec<Path> {
        let mut out = vec![];
        self.visit(&mut vec![], &mut |p, o| {
            if o == 0 {
                out.push(p.clone())
            }
        });
        out
    }
    /// All caret positions in reading order.
    pub fn positions(&self) -> Vec<Pos> {
        let mut out = vec![];
        self.visit(&mut vec![], &mut |p, o| out.push((p.clone(), o)));
        out
    }
    fn visit(&self, path: &mut Path, f: &mut impl FnMut(&Path, usize)) {
        for (i, n) in self.0.iter().enumerate() {
            f(path, i);
            for (j, r) in n.rows().iter().enumerate() {
                path.push((i, j));
                r.visit(path, f);
                path.pop();
            }
        }
        f(path, self.len());
    }
    /// All elements with a grid: (row, element index).
    pub fn containers(&self) -> Vec<(Path, usize)> {
        let mut out = vec![];
        for p in self.rows() {
            for (i, n) in self.get(&p).unwrap().0.iter().enumerate() {
                if !n.rows().is_empty() {
                    out.push((p.clone(), i));
                }
            }
        }
        out
    }
    pub fn tables(&self) -> Vec<(Path, usize)> {
        self.containers()
            .into_iter()
            .filter(|(p, i)| self.get(p).unwrap().0[*i].is_table())
            .collect()
    }
    pub fn map_symbols(&mut self, f: &mut impl FnMut(&mut String)) {
        for n in &mut self.0 {
            match n {
                N::S(s) => f(s),
                N::C(_, _, rows) => rows.iter_mut().for_each(|r| r.map_symbols(f)),
            }
        }
    }
}

pub fn indices(path: &[(usize, usize)]) -> RowIndices {
    RowIndices::new(path.iter().map(|(a, b)| RowIndex(*a, *b)).collect())
}
pub fn path_of(r: &RowIndices) -> Path {
    r.iter().map(|i| (i.0, i.1)).collect()
}

/// Renders the textual form described by C08; independent of the code under test.
pub fn print_node(n: &N, out: &mut String) {
    match n {
        N::S(s) => {
            out.push('"');
            for c in s.chars() {
                if c == '"' || c == '\\' {
                    out.push('\\');
                }
                out.push(c);
            }
            out.push('"');
        }
        N::C(k, w, rows) => {
            let name = match k {
                Kind::Frac => "frac",
                Kind::Root => "root",
                Kind::Sup => "sup",
                Kind::Sub => "sub",
                Kind::Table => "table",
            };
            out.push_str(&format!("({name} {w}x{}", rows.len() / w));
            for r in rows {
                out.push(' ');
                print_row(r, out);
            }
            out.push(')');
        }
    }
}
pub fn print_row(r: &R, out: &mut String) {
    out.push_str("(row");
    for n in &r.0 {
        out.push(' ');
        print_node(n, out);
    }
    out.push(')');
}

/// Reads the textual form back.
pub fn parse_printed(text: &str) -> Result<R, String> {
    let chars: Vec<char> = text.chars().collect();
    let mut i = 0;
    let r = parse_row(&chars, &mut i)?;
    if i != chars.len() {
        return Err(format!("text after the formula at {i}"));
    }
    Ok(r)
}
fn lit(c: &[char], i: &mut usize, s: &str) -> Result<(), String> {
    for x in s.chars() {
        if c.get(*i) != Some(&x) {
            return Err(format!("expected {s:?} at {i}"));
        }
        *i += 1;
    }
    Ok(())
}
fn parse_row(c: &[char], i: &mut usize) -> Result<R, String> {
    lit(c, i, "(row")?;
    let mut v = vec![];
    loop {
        match c.get(*i) {
            Some(')') => {
                *i += 1;
                return Ok(R(v));
            }
            Some(' ') => {
                *i += 1;
                v.push(parse_node(c, i)?);
            }
            _ => return Err(format!("bad row at {i}")),
        }
    }
}
fn number(c: &[char], i: &mut usize) -> Result<usize, String> {
    let s: String = c[*i..].iter().take_while(|x| x.is_ascii_digit()).collect();
    *i += s.len();
    s.parse().map_err(|_| format!("expected a number at {i}"))
}
fn parse_node(c: &[char], i: &mut usize) -> Result<N, String> {
    if c.get(*i) == Some(&'"') {
        *i += 1;
        let mut s = String::new();
        loop {
            match c.get(*i) {
                Some('"') => {
                    *i += 1;
                    return Ok(N::S(s));
                }
                Some('\\') => {
                    match c.get(*i + 1) {
                        Some(x @ ('"' | '\\')) => s.push(*x),
                        _ => return Err(format!("bad escape at {i}")),
                    }
                    *i += 2;
                }
                Some(x) => {
                    s.push(*x);
                    *i += 1;
                }
                None => return Err("unterminated symbol".into()),
            }
        }
    }
    lit(c, i, "(")?;
    let name: String = c[*i..].iter().take_while(|x| x.is_alphabetic()).collect();
    *i += name.chars().count();
    let k = match name.as_str() {
        "frac" => Kind::Frac,
        "root" => Kind::Root,
        "sup" => Kind::Sup,
        "sub" => Kind::Sub,
        "table" => Kind::Table,
        _ => return Err(format!("unknown element kind {name:?}")),
    };
    lit(c, i, " ")?;
    let w = number(c, i)?;
    lit(c, i, "x")?;
    let h = number(c, i)?;
    let mut rows = vec![];
    for _ in 0..w * h {
        lit(c, i, " ")?;
        rows.push(parse_row(c, i)?);
    }
    lit(c, i, ")")?;
    Ok(N::C(k, w, rows))
}
