//! C35: rows are read on their own.
use crate::expr::*;
use crate::{c19, soup};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, Kids, T};
use vcommon::gen::{choose, sel, Sel};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, model::*};

/// The subtree of each row of the element at `at` of the row of `t`.
fn subtrees(t: &T, at: usize) -> Result<&Vec<T>, String> {
    let mut found = vec![];
    t.walk_row(&mut |n| {
        if let Kids::Rows(_, k) = &n.kids {
            if n.range.start == at {
                found.push(k);
            }
        }
    });
    ensure_eq!(found.len(), 1, "nodes for the element at {at}");
    Ok(found[0])
}

/// Every row inside of `r`, found in its tree `t`, is what it is alone.
fn alone(r: &R, t: &T, depth: usize, o: &mut Obs) -> Result<(), String> {
    for (i, n) in r.0.iter().enumerate() {
        if n.rows().is_empty() {
            continue;
        }
        for (row, sub) in n.rows().iter().zip(subtrees(t, i)?) {
            let own = parse(row)?;
            ensure!(*sub == own, "{row:?} alone is {own:?}\nbut in an element at {i} of {r:?} it is {sub:?}");
            o.evals(1);
            o.nontrivial_if(row.len() > 1);
            o.label_if(depth > 0, "below another element");
            o.label_if(row.is_empty(), "empty row");
            o.label_if(!own.errors().is_empty(), "with errors");
            o.label(format!("in {:?}", n.kind().unwrap()));
            alone(row, sub, depth + 1, o)?;
        }
    }
    Ok(())
}
fn rows_check(r: &R, o: &mut Obs) -> Result<(), String> {
    alone(r, &parse(r)?, 0, o)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Change {
    formula: R,
    which: Sel,
    /// the new rows of the element, cyclic
    rows: Vec<R>,
}
fn change() -> impl Strategy<Value = Change> {
    (soup::formula(true), sel(), vec(soup::formula(true), 1..3)).prop_map(|(formula, which, mut rows)| {
        // Unclosed brackets multiply over the whole formula.
        for r in &mut rows {
            r.map_symbols(&mut |s| {
                if s == "(" {
                    *s = "q".into()
                }
            });
        }
        Change { formula, which, rows }
    })
}
fn change_check(c: &Change, o: &mut Obs) -> Result<(), String> {
    let all = c.formula.containers();
    if all.is_empty() {
        return Ok(());
    }
    let (path, at) = all[choose(c.which, all.len())].clone();
    let mut changed = c.formula.clone();
    let N::C(_, _, rows) = &mut changed.get_mut(&path).unwrap().0[at] else { unreachable!() };
    for (i, r) in rows.iter_mut().enumerate() {
        *r = c.rows[i % c.rows.len()].clone();
    }
    if changed == c.formula {
        return Ok(());
    }
    // Leaves out the rows of the element.
    fn without(t: &T, path: &[(usize, usize)], at: usize) -> Result<T, String> {
        let mut t = t.clone();
        fn go(t: &mut T, path: &[(usize, usize)], at: usize) -> bool {
            let here = t.range.start;
            match &mut t.kids {
                Kids::Nodes(k) => k.iter_mut().any(|k| go(k, path, at)),
                Kids::Leaf(..) => false,
                Kids::Rows(_, k) => match path {
                    [] if here == at => {
                        k.clear();
                        true
                    }
                    [(e, row), rest @ ..] if here == *e => go(&mut k[*row], rest, at),
                    _ => false,
                },
            }
        }
        ensure!(go(&mut t, path, at), "the element at {at} of the row {path:?} is not in the tree {t:?}");
        Ok(t)
    }
    let before = without(&parse(&c.formula)?, &path, at)?;
    let after = without(&parse(&changed)?, &path, at)?;
    ensure!(
        before == after,
        "around the element at {at} of the row {path:?}, {:?} is {before:?}\nbut with other rows in it ({changed:?}) {after:?}", c.formula
    );
    o.nontrivial();
    o.evals(2);
    o.label(format!("other rows in {:?}", c.formula.get(&path).unwrap().0[at].kind().unwrap()));
    o.label_if(!path.is_empty(), "below another element");
    o.label_if(c.formula.get(&path).unwrap().len() > 1, "with something around it");
    Ok(())
}

/// Fractions become roots and the other way round, superscripts subscripts and the other way round; one-row
/// tables with two cells become roots when `tables`.
fn kinds_check(r: &R, o: &mut Obs) -> Result<(), String> {
    fn other(r: &R, n: &mut usize) -> R {
        R(r.0
            .iter()
            .map(|e| match e {
                N::S(_) => e.clone(),
                N::C(k, w, rows) => {
                    *n += 1;
                    let rows = rows.iter().map(|r| other(r, n)).collect::<Vec<_>>();
                    match k {
                        Kind::Frac => N::C(Kind::Root, 2, rows),
                        Kind::Root => N::C(Kind::Table, 2, rows),
                        Kind::Table if rows.len() == 2 => N::C(Kind::Frac, 1, rows),
                        Kind::Table => N::C(Kind::Table, rows.len() / w, rows),
                        Kind::Sup => N::C(Kind::Sub, 1, rows),
                        Kind::Sub => N::C(Kind::Sup, 1, rows),
                    }
                }
            })
            .collect())
    }
    // The tree without what tells these apart.
    fn plain(t: &T) -> T {
        let name = match t.name.as_str() {
            "BuiltIn::Fraction" | "BuiltIn::Root" | "BuiltIn::Table" => "element",
            "BuiltIn::Sup" | "BuiltIn::Sub" => "script",
            n => n,
        };
        let kids = match &t.kids {
            Kids::Nodes(k) => Kids::Nodes(k.iter().map(plain).collect()),
            Kids::Rows(_, k) => Kids::Rows(1, k.iter().map(plain).collect()),
            k => k.clone(),
        };
        T { name: name.into(), range: t.range.clone(), kids, value: t.value.clone() }
    }
    let mut n = 0;
    let s = other(r, &mut n);
    let (a, b) = (plain(&parse(r)?), plain(&parse(&s)?));
    ensure!(a == b, "{r:?} is {a:?}\nbut with other kinds of elements, {s:?} is {b:?}");
    o.evals(1);
    o.nontrivial_if(n > 0);
    o.label_if(n > 1, "several elements");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct InBrackets {
    e: E,
    spaces: Vec<u8>,
    pairs: usize,
}
fn brackets() -> impl Strategy<Value = InBrackets> {
    (expr(true), vec(prop_oneof![3 => Just(0u8), 1 => Just(1), 1 => Just(2)], 1..6), 1usize..4)
        .prop_map(|(e, spaces, pairs)| InBrackets { e, spaces, pairs })
}
fn moved(t: &T, by: usize) -> T {
    let kids = match &t.kids {
        Kids::Nodes(k) => Kids::Nodes(k.iter().map(|k| moved(k, by)).collect()),
        k => k.clone(),
    };
    T { name: t.name.clone(), range: t.range.start + by..t.range.end + by, kids, value: t.value.clone() }
}
fn brackets_check(c: &InBrackets, o: &mut Obs) -> Result<(), String> {
    let table = standard();
    let mut row = Printer::new(&table, Style::Minimal, &c.spaces).row(&c.e).0;
    let space = N::s(" ");
    while row.last() == Some(&space) {
        row.pop();
    }
    while row.first() == Some(&space) {
        row.remove(0);
    }
    let own = parse(&R(row.clone()))?;
    if !own.errors().is_empty() {
        return Ok(()); // C21
    }
    let mut all = vec![N::s("("); c.pairs];
    all.extend(row.iter().cloned());
    all.extend(vec![N::s(")"); c.pairs]);
    let all = R(all);
    let whole = parse(&all)?;
    let mut t = &whole;
    for i in 0..c.pairs {
        let Kids::Nodes(k) = &t.kids else { return Err(format!("{all:?} is not in brackets: {whole:?}")) };
        ensure!(
            t.name == "Core::RoundBrackets" && k.len() == 3 && t.range == (i..all.len() - i),
            "{all:?} is not in {} pairs of brackets, but {whole:?}", c.pairs
        );
        t = &k[1];
    }
    let expected = moved(&own, c.pairs);
    ensure!(*t == expected, "{row:?} is {expected:?}\nbut in {} pairs of brackets {t:?}", c.pairs);
    o.evals(1);
    o.nontrivial_if(row.len() > 1);
    o.label(format!("{} pairs of brackets", c.pairs));
    Ok(())
}

/// Letters that occur in no word operator, and digits; both are shifted along these lists.
const LETTERS: &str = "abcdegkqwyzABZéü中国αω";
const DIGITS: &str = "0123456789";
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Renamed {
    formula: R,
    letters: usize,
    digits: usize,
}
fn renamed() -> impl Strategy<Value = Renamed> {
    (soup::formula(true), 0usize..20, 0usize..10).prop_map(|(formula, letters, digits)| Renamed { formula, letters, digits })
}
fn renamed_check(c: &Renamed, o: &mut Obs) -> Result<(), String> {
    let shift = |s: &str| -> String {
        s.chars()
            .map(|x| {
                for (list, by) in [(LETTERS, c.letters), (DIGITS, c.digits)] {
                    let all: Vec<char> = list.chars().collect();
                    if let Some(i) = all.iter().position(|y| *y == x) {
                        return all[(i + by) % all.len()];
                    }
                }
                x
            })
            .collect()
    };
    fn map(t: &T, f: &impl Fn(&str) -> String) -> T {
        let kids = match &t.kids {
            Kids::Nodes(k) => Kids::Nodes(k.iter().map(|k| map(k, f)).collect()),
            Kids::Rows(w, k) => Kids::Rows(*w, k.iter().map(|k| map(k, f)).collect()),
            Kids::Leaf(op, s) => Kids::Leaf(*op, s.iter().map(|s| f(s)).collect()),
        };
        T { name: t.name.clone(), range: t.range.clone(), kids, value: t.value.clone() }
    }
    let mut other = c.formula.clone();
    let mut n = 0;
    other.map_symbols(&mut |s| {
        let to = shift(s);
        n += usize::from(to != *s);
        *s = to;
    });
    let expected = map(&parse(&c.formula)?, &shift);
    let found = parse(&other)?;
    ensure!(found == expected, "{:?} is, renamed, {expected:?}\nbut {other:?} is {found:?}", c.formula);
    o.evals(1);
    o.nontrivial_if(n > 0);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C35",
        rule: "Part rows: every row inside an arbitrary formula (as for C19) parsed alone. Part contents: one element's rows exchanged for others, the trees compared without these rows. Part kinds: fractions, roots and tables, superscripts and subscripts exchanged for one another. Part brackets: a well-formed expression in one to three pairs of brackets compared with it alone. Part renamed: letters exchanged for letters and digits for digits. Non-trivial: an inner row with at least two elements; an exchange that changes something; an expression of at least two symbols.",
        assumptions: vec![
            "stand-in parser combinator library, see C19",
            "letters are exchanged only for letters that occur in no word operator",
        ],
        parts: vec![
            part("rows", 120_000, 2_400_000, c19::any, rows_check),
            part("contents", 120_000, 2_400_000, change, change_check),
            part("kinds", 100_000, 2_000_000, c19::any, kinds_check),
            part("brackets", 40_000, 800_000, brackets, brackets_check),
            part("renamed", 100_000, 2_000_000, renamed, renamed_check),
        ],
    }]
}
