//! C36: what is missing or unknown is reported in its place and nothing else changes.
use crate::c21::{custom_parser, operators};
use crate::expr::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, Setup, T};
use std::collections::HashMap;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure_eq, gen::*, model::*};

/// Symbols no rule reads.
const UNKNOWN: &[&str] = &["#", "¶", "∈", "[", "😀", "?"];
/// Brackets without their partner.
const OPEN: u8 = 2 + UNKNOWN.len() as u8;
const CLOSE: u8 = OPEN + 1;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    e: E,
    /// what becomes of the operands, cyclic: 0 they stay, 1 left out, 2.. unknown symbols, lone brackets
    operands: Vec<u8>,
    /// which operators are left out, cyclic
    operators: Vec<bool>,
    spaces: Vec<u8>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Custom {
    ops: Vec<(Fix, u8)>,
    case: Case,
}
fn case(full: bool) -> impl Strategy<Value = Case> {
    let what = prop_oneof![4 => Just(0u8), 3 => Just(1u8), 2 => 2u8..OPEN, 1 => OPEN..=CLOSE];
    let spaces = vec(prop_oneof![6 => Just(0u8), 2 => Just(1), 1 => Just(2)], 1..8);
    let without = vec(prop::bool::weighted(if full { 0.25 } else { 0.0 }), 1..8);
    (expr(full), vec(what, 1..12), without, spaces).prop_map(|(e, operands, operators, spaces)| Case { e, operands, operators, spaces })
}
fn custom() -> impl Strategy<Value = Custom> {
    let fix = prop_oneof![3 => Just(Fix::Left), 3 => Just(Fix::Right), 2 => Just(Fix::Prefix), 2 => Just(Fix::Postfix)];
    (vec((fix, 0u8..4), 4..9), case(false)).prop_map(|(ops, case)| Custom { ops, case })
}

/// The marks in an expression and what they stand for.
struct Marks {
    next: u16,
    operands: HashMap<char, u8>,
    operators: Vec<char>,
    seen: (usize, usize),
}
impl Marks {
    fn put(&mut self, e: &E, c: &Case) -> E {
        let mut b = |e: &E| Box::new(self.put(e, c));
        match e {
            E::Atom(_) => {
                let what = c.operands[self.seen.0 % c.operands.len()];
                self.seen.0 += 1;
                if what == 0 {
                    return e.clone();
                }
                self.operands.insert(mark(self.next), what);
                self.next += 1;
                E::Odd(self.next - 1)
            }
            E::Infix(s, scripts, x, y) => {
                let (x, scripts, y) = (b(x), scripts.iter().map(|(k, e)| (*k, *b(e))).collect(), b(y));
                let without = c.operators[self.seen.1 % c.operators.len()];
                self.seen.1 += 1;
                if !without {
                    return E::Infix(*s, scripts, x, y);
                }
                self.operators.push(mark(self.next));
                self.next += 1;
                E::Beside(self.next - 1, x, y)
            }
            E::Prefix(s, scripts, x) => E::Prefix(*s, scripts.iter().map(|(k, e)| (*k, *b(e))).collect(), b(x)),
            E::Postfix(s, x) => E::Postfix(*s, b(x)),
            E::Apply(f, a) => E::Apply(b(f), a.as_ref().map(|a| b(a))),
            E::Script(k, x, y) => E::Script(*k, b(x), b(y)),
            E::Frac(x, y) => E::Frac(b(x), b(y)),
            E::Root(x, y) => E::Root(b(x), b(y)),
            E::Table(w, cells) => E::Table(*w, cells.iter().map(|e| *b(e)).collect()),
            E::Odd(_) | E::Beside(..) => e.clone(),
        }
    }
}

/// What a mark stands for in the row and in the tree.
type Meaning = HashMap<char, (Option<String>, String, String)>;
fn as_mark(n: &N) -> Option<char> {
    match n {
        N::S(s) => s.chars().next().filter(|c| ('\u{e000}'..'\u{f8ff}').contains(c)),
        _ => None,
    }
}
/// Decides for every mark of a row whether it can be left out, so that nothing around it can be read otherwise.
fn decide(r: &R, t: &Table, m: &Marks, out: &mut Meaning) {
    let solid: Vec<&N> = r.0.iter().filter(|n| **n != N::s(" ")).collect();
    let is = |n: Option<&&N>, s: &str| n.is_some_and(|n| **n == N::s(s));
    let ops = |l: &[Op], n: &N| l.iter().any(|o| *n == N::s(&o.symbols[0]));
    // Brackets have no partner outside of all others, in a row with those of one side only.
    let lone = |n: &&N| as_mark(n).and_then(|c| m.operands.get(&c).copied()).filter(|w| *w >= OPEN);
    let side = solid.iter().find_map(lone);
    let (mut depth, mut lonely) = (0, 0);
    for (i, n) in solid.iter().enumerate() {
        depth += (**n == N::s("(")) as i32 - (**n == N::s(")")) as i32;
        let Some(c) = as_mark(n) else { continue };
        let Some(what) = m.operands.get(&c) else { continue };
        if *what >= OPEN && depth == 0 && Some(*what) == side && lonely < 3 {
            lonely += 1;
            let s = if *what == OPEN { "(" } else { ")" };
            out.insert(c, (Some(s.to_string()), format!("(Error::UnknownToken {s})"), String::new()));
            continue;
        }
        let what = if *what >= OPEN { &0 } else { what };
        let before = if i == 0 { None } else { solid.get(i - 1) };
        let behind = solid.get(i + 1);
        if *what >= 2 {
            let s = UNKNOWN[(*what as usize - 2) % UNKNOWN.len()];
            out.insert(c, (Some(s.to_string()), format!("(Error::UnknownToken {s})"), String::new()));
            continue;
        }
        let ends = behind.is_none() || is(behind, ")");
        let alone = ends && (before.is_none() || is(before, "("));
        let goes_on = behind.is_some_and(|n| !ops(&t.prefix, n) && (ops(&t.infix, n) || ops(&t.postfix, n)));
        if *what == 1 && ((ends && !alone) || goes_on) {
            out.insert(c, (None, "(Error::MissingToken )".into(), String::new()));
        } else {
            out.insert(c, (Some("w".into()), "(Core::Variable w)".into(), String::new()));
        }
    }
    for (i, n) in solid.iter().enumerate() {
        let Some(c) = as_mark(n).filter(|c| m.operators.contains(c)) else { continue };
        let stands = |n: Option<&&N>, front: bool| match n {
            None => false,
            Some(n) => match as_mark(n) {
                Some(c) => out.get(&c).is_some_and(|(text, tree, _)| text.is_some() && !tree.contains("Unknown")),
                // Behind a missing operator nothing may be read as one.
                None => front || match n {
                    N::S(s) => s != "(" && !ops(&t.infix, n) && !ops(&t.postfix, n),
                    N::C(k, ..) => !matches!(k, Kind::Sup | Kind::Sub),
                },
            },
        };
        if i > 0 && stands(solid.get(i - 1), true) && stands(solid.get(i + 1), false) {
            out.insert(c, (None, "Error::MissingOperator".into(), "(Error::MissingToken )".into()));
        } else {
            out.insert(c, (Some("∧".into()), "Logic::And".into(), "(BuiltIn::Operator ∧)".into()));
        }
    }
    for n in &r.0 {
        n.rows().iter().for_each(|r| decide(r, t, m, out));
    }
}
/// The row without what is left out.
fn write(r: &R, m: &Marks, meaning: &Meaning) -> R {
    let mut out: Vec<N> = vec![];
    // An unknown symbol does not take the spaces around it.
    let mut unknown = false;
    for n in &r.0 {
        if unknown && *n == N::s(" ") {
            continue;
        }
        unknown = false;
        match as_mark(n) {
            None => out.push(match n {
                N::S(_) => n.clone(),
                N::C(k, w, rows) => N::C(*k, *w, rows.iter().map(|r| write(r, m, meaning)).collect()),
            }),
            Some(c) => match &meaning[&c].0 {
                Some(s) => {
                    if meaning[&c].1.contains("Unknown") {
                        unknown = true;
                        while out.last() == Some(&N::s(" ")) {
                            out.pop();
                        }
                    }
                    out.push(N::s(s));
                }
                // Names and numbers side by side have a space between them.
                None if m.operators.contains(&c) => out.push(N::s(" ")),
                None => {}
            },
        }
    }
    R(out)
}

fn compare(c: &Case, t: &Table, parse: &dyn Fn(&R) -> Result<T, String>, o: &mut Obs) -> Result<(), String> {
    let mut m = Marks { next: 0, operands: HashMap::new(), operators: vec![], seen: (0, 0) };
    let e = m.put(&c.e, c);
    for (style, spaces) in [(Style::Minimal, &[][..]), (Style::Minimal, &c.spaces[..]), (Style::Full, &[][..])] {
        let mut p = Printer::new(t, style, spaces);
        let with_marks = p.row(&e);
        let mut meaning = HashMap::new();
        decide(&with_marks, t, &m, &mut meaning);
        let row = write(&with_marks, &m, &meaning);
        let mut expected = String::new();
        let mut seen: Vec<char> = vec![];
        for ch in p.expected(&e).chars() {
            match meaning.get(&ch) {
                None => expected.push(ch),
                Some((_, first, second)) => {
                    expected.push_str(if seen.contains(&ch) { second } else { first });
                    seen.push(ch);
                }
            }
        }
        let tree = parse(&row)?;
        ensure_eq!(normal(&tree), expected, "{row:?}");
        o.evals(1);
        let count = |s: &str| expected.matches(s).count();
        let (tokens, besides, unknown) = (count("(Error::MissingToken"), count("(Error::MissingOperator"), count("(Error::UnknownToken"));
        o.label_if(tokens > besides, "missing operand");
        o.label_if(besides > 0, "missing operator");
        o.label_if(unknown > 0, "unknown symbol");
        o.label_if(expected.contains("UnknownToken (") || expected.contains("UnknownToken )"), "lone bracket");
        o.label_if(tokens + unknown > 2, "several");
        o.nontrivial_if(tokens + unknown > 0 && operators(&e) > 1);
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    compare(c, &standard(), &parse, o)
}
fn custom_check(c: &Custom, o: &mut Obs) -> Result<(), String> {
    let (table, s): (Table, Setup) = custom_parser(&c.ops);
    let parse = |r: &R| {
        let input: Vec<_> = r.0.iter().map(N::to_input).collect();
        T::of(&s.parser.parse(&input), &s)
    };
    compare(&c.case, &table, &parse, o)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C36",
        rule: "A case is a random expression tree over all published operators (or over a random table of operators), of whose operands some are left out or exchanged for symbols nothing reads or brackets without a partner, and of whose infix operators some are left out, wherever what stands around the place cannot be read otherwise; written out with minimal brackets, with spaces, and with a bracket around every operand, each must parse to that tree with the error nodes in those places. Non-trivial: something is missing or unknown and the tree has at least two operators.",
        assumptions: vec!["stand-in parser combinator library, see C19"],
        parts: vec![
            part("standard", 120_000, 2_400_000, || case(true), check),
            part("custom", 60_000, 1_200_000, custom, custom_check),
        ],
    }]
}
