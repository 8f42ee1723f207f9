//! C31: the printed form of syntax trees.
use crate::c19::any as any_row;
use crate::expr::*;
use parser::syntax_tree::{LeafNodeType, SyntaxLeafNode, SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameId};
use input_tree::grid::GridVec;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use setup::{shared, Kids, T};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

/// What a printed tree tells.
#[derive(Clone, Debug, PartialEq)]
struct P {
    name: String,
    kids: Printed,
    value: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq)]
enum Printed {
    Nodes(Vec<P>),
    Rows(usize, usize, Vec<P>),
    Leaf(String),
}
fn told(t: &T) -> P {
    let kids = match &t.kids {
        Kids::Nodes(k) => Printed::Nodes(k.iter().map(told).collect()),
        Kids::Rows(w, k) => Printed::Rows(*w, k.len() / w, k.iter().map(told).collect()),
        Kids::Leaf(_, s) => Printed::Leaf(s.concat()),
    };
    P { name: t.name.clone(), kids, value: t.value.clone() }
}

/// An independent reader: ( name [ text | size node* | node+ ] [hex] ), separated by single spaces.
struct Reader<'a> {
    s: &'a [char],
    at: usize,
}
impl Reader<'_> {
    fn peek(&self) -> Option<char> {
        self.s.get(self.at).copied()
    }
    fn eat(&mut self, c: char) -> Result<(), String> {
        if self.peek() == Some(c) {
            self.at += 1;
            Ok(())
        } else {
            Err(format!("{:?} instead of {c:?} at {}", self.peek(), self.at))
        }
    }
    fn word(&mut self) -> String {
        let from = self.at;
        while self.peek().is_some_and(|c| c != ' ' && c != ')' && c != '(' && c != '"') {
            self.at += 1;
        }
        self.s[from..self.at].iter().collect()
    }
    fn text(&mut self) -> Result<String, String> {
        self.eat('"')?;
        let mut out = String::new();
        loop {
            match self.peek() {
                Some('"') => {
                    self.at += 1;
                    return Ok(out);
                }
                Some('\\') => {
                    self.at += 1;
                    out.push(self.peek().ok_or("text ends after a backslash")?);
                }
                Some(c) => out.push(c),
                None => return Err("text does not end".into()),
            }
            self.at += 1;
        }
    }
    fn node(&mut self) -> Result<P, String> {
        self.eat('(')?;
        let name = self.word();
        let mut nodes = vec![];
        let mut size = None;
        let mut leaf = None;
        let mut value = vec![];
        while self.peek() == Some(' ') {
            if !value.is_empty() {
                return Err("something behind the value".into());
            }
            self.at += 1;
            match self.peek() {
                Some('(') => nodes.push(self.node()?),
                Some('"') => {
                    if leaf.is_some() {
                        return Err("two texts".into());
                    }
                    leaf = Some(self.text()?)
                }
                _ => {
                    let w = self.word();
                    if let Some((x, y)) = w.split_once('x') {
                        let n = |s: &str| s.parse::<usize>().map_err(|e| format!("size {w:?}: {e}"));
                        size = Some((n(x)?, n(y)?));
                    } else {
                        if w.is_empty() || w.len() % 2 != 0 {
                            return Err(format!("value {w:?}"));
                        }
                        for i in (0..w.len()).step_by(2) {
                            value.push(u8::from_str_radix(w.get(i..i + 2).ok_or("value")?, 16).map_err(|e| e.to_string())?);
                        }
                    }
                }
            }
        }
        self.eat(')')?;
        let kids = match (leaf, size) {
            (Some(l), None) if nodes.is_empty() => Printed::Leaf(l),
            (None, Some((w, h))) => Printed::Rows(w, h, nodes),
            (None, None) => Printed::Nodes(nodes),
            _ => return Err("mixed content".into()),
        };
        Ok(P { name, kids, value })
    }
}
fn read(text: &str) -> Result<P, String> {
    let s: Vec<char> = text.chars().collect();
    let mut r = Reader { s: &s, at: 0 };
    let p = r.node()?;
    if r.at != s.len() {
        return Err(format!("ends at {} of {}", r.at, s.len()));
    }
    Ok(p)
}

fn compare(n: &SyntaxNode, o: &mut Obs) -> Result<(), String> {
    let s = shared();
    let t = T::of(n, &s)?;
    let text = n.with_display(&s.names).to_string();
    let expected = told(&t);
    match read(&text) {
        Ok(p) => ensure_eq!(p, expected, "what {text} tells"),
        Err(e) => return Err(format!("{text} cannot be read: {e}")),
    }
    o.label_if(t.count(|t| matches!(t.kids, Kids::Rows(..))) > 0, "rows");
    o.label_if(text.contains('\\'), "escapes");
    o.label_if(text.contains("Error::"), "errors");
    o.evals(t.count(|_| true));
    o.nontrivial_if(t.count(|_| true) > 2);
    Ok(())
}
fn parsed(r: &R, o: &mut Obs) -> Result<(), String> {
    let input: Vec<_> = r.0.iter().map(N::to_input).collect();
    compare(&shared().parser.parse(&input), o)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Well {
    e: E,
    spaces: Vec<u8>,
}
fn well() -> impl Strategy<Value = Well> {
    (expr(true), vec(0u8..3, 1..8)).prop_map(|(e, spaces)| Well { e, spaces })
}
fn well_check(c: &Well, o: &mut Obs) -> Result<(), String> {
    let table = standard();
    parsed(&Printer::new(&table, Style::Minimal, &c.spaces).row(&c.e), o)
}

/// A tree put together freely.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Free {
    Nodes(Sel, Vec<u8>, Vec<Free>),
    Rows(Sel, Vec<u8>, u8, Vec<Free>),
    Leaf(Sel, Vec<u8>, bool, Vec<String>),
}
fn free() -> BoxedStrategy<Free> {
    let value = || prop_oneof![3 => Just(vec![]), 1 => prop_oneof![9 => vec(any_byte(), 1..4), 1 => vec(any_byte(), 4..40)]];
    let leaf = prop_oneof![
        3 => (sel(), value(), any::<bool>(), prop_oneof![9 => vec(sym_wide(), 0..4), 1 => vec(sym_wide(), 4..50)]).prop_map(|(n, v, o, s)| Free::Leaf(n, v, o, s)),
        1 => (sel(), value()).prop_map(|(n, v)| Free::Nodes(n, v, vec![])),
    ];
    leaf.prop_recursive(5, 24, 4, move |f| {
        prop_oneof![
            2 => (sel(), value(), prop_oneof![8 => vec(f.clone(), 0..5).boxed(), 1 => (vec(f.clone(), 1..5), 2usize..12).prop_map(|(v, n)| vec![v; n].concat()).boxed()]).prop_map(|(n, v, k)| Free::Nodes(n, v, k)),
            1 => (sel(), value(), 1u8..4, prop_oneof![8 => vec(f, 1..7).boxed(), 1 => vec(Just(Free::Nodes(0, vec![], vec![])), 1..60).boxed()]).prop_map(|(n, v, w, k)| Free::Rows(n, v, w, k)),
        ]
    })
    .boxed()
}
fn any_byte() -> impl Strategy<Value = u8> {
    any::<u8>()
}
fn build(f: &Free, at: usize, ids: &[SyntaxNodeNameId]) -> SyntaxNode {
    let (name, value) = match f {
        Free::Nodes(n, v, _) | Free::Rows(n, v, _, _) | Free::Leaf(n, v, _, _) => (ids[choose(*n, ids.len())], v.clone()),
    };
    let mut node = match f {
        Free::Nodes(_, _, k) => {
            let mut end = at;
            let mut kids = vec![];
            for f in k {
                let n = build(f, end, ids);
                end = n.range().end;
                kids.push(n);
            }
            SyntaxNode::new(name, at..end, SyntaxNodeChildren::Children(kids))
        }
        Free::Rows(_, _, w, k) => {
            let w = (*w as usize).min(k.len());
            let cells: Vec<_> = k[..k.len() / w * w].iter().map(|f| build(f, 0, ids)).collect();
            SyntaxNode::new(name, at..at + 1, SyntaxNodeChildren::NewRows(GridVec::from_one_dimensional(cells, w)))
        }
        Free::Leaf(_, _, op, s) => {
            let kind = if *op { LeafNodeType::Operator } else { LeafNodeType::Symbol };
            SyntaxNode::new(name, at..at + s.len(), SyntaxNodeChildren::Leaf(SyntaxLeafNode::new(kind, s.clone())))
        }
    };
    node.value = value;
    node
}
fn free_check(f: &Free, o: &mut Obs) -> Result<(), String> {
    let s = shared();
    let mut ids: Vec<_> = s.by_id.keys().copied().collect();
    ids.sort_by_key(|i| s.by_id[i].clone());
    let n = build(f, 0, &ids);
    compare(&n, o)?;
    // A tree of somebody else's rules prints as well.
    let other = parser::syntax_tree::SyntaxNodeNameMap::new();
    let text = n.with_display(&other).to_string();
    ensure!(text.starts_with('(') && text.ends_with(')'), "without names: {text}");
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C31",
        rule: "A case is the syntax tree of an arbitrary row or of a well-formed expression, or a freely built tree with arbitrary leaf texts and values; its printed form is read by an independent reader and compared with the tree. Non-trivial: at least three nodes.",
        assumptions: vec!["stand-in parser combinator library, see C19"],
        parts: vec![
            part("parsed", 160_000, 3_200_000, any_row, parsed),
            part("expressions", 60_000, 1_200_000, well, well_check),
            part("free", 100_000, 2_000_000, free, free_check),
        ],
    }]
}
