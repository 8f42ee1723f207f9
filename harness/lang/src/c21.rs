//! C21: grouping by precedence and associativity.
use crate::expr::*;
use parser::make_parser::just_operator_parser;
use parser::parse_module::*;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{built_in_rules::BuiltInRules, core_rules::CoreRules};
use parser::syntax_tree::PathIdentifier;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, Setup, T};
use std::collections::HashMap;
use std::rc::Rc;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    e: E,
    spaces: Vec<u8>,
}
fn case() -> impl Strategy<Value = Case> {
    (expr(true), vec(prop_oneof![30 => Just(0u8), 10 => Just(1), 10 => Just(2), 1 => 3u8..40], 1..8)).prop_map(|(e, spaces)| Case { e, spaces })
}
pub fn operators(e: &E) -> usize {
    match e {
        E::Atom(_) | E::Odd(_) => 0,
        E::Beside(_, x, y) => 1 + operators(x) + operators(y),
        E::Infix(_, _, x, y) => 1 + operators(x) + operators(y),
        E::Prefix(_, _, x) | E::Postfix(_, x) => 1 + operators(x),
        E::Apply(x, y) => 1 + operators(x) + y.as_ref().map_or(0, |y| operators(y)),
        E::Script(_, x, y) => 1 + operators(x) + operators(y),
        E::Frac(x, y) | E::Root(x, y) => operators(x) + operators(y),
        E::Table(_, c) => c.iter().map(operators).sum(),
    }
}

fn compare(c: &Case, table: &Table, parse: &dyn Fn(&R) -> Result<T, String>, o: &mut Obs) -> Result<(), String> {
    let none: &[u8] = &[];
    for (style, spaces) in [(Style::Minimal, none), (Style::Minimal, &c.spaces[..]), (Style::Full, none)] {
        let mut p = Printer::new(table, style, spaces);
        let row = p.row(&c.e);
        let expected = p.expected(&c.e);
        let t = parse(&row)?;
        ensure_eq!(normal(&t), expected, "grouping of {row:?}");
        o.evals(1);
        o.label_if(style == Style::Minimal && p.brackets > 0, "needs brackets");
        o.label_if(style == Style::Minimal && p.brackets == 0 && operators(&c.e) > 1, "needs no brackets");
        o.label_if(p.spaced > 0, "spaces");
    }
    o.nontrivial_if(operators(&c.e) > 1);
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    compare(c, &standard(), &parse, o)
}

/// The parser with operators of arbitrary levels and sides.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Custom {
    /// side and level of each operator; a level has one side only
    ops: Vec<(Fix, u8)>,
    e: E,
    spaces: Vec<u8>,
}
fn custom() -> impl Strategy<Value = Custom> {
    let fix = prop_oneof![3 => Just(Fix::Left), 3 => Just(Fix::Right), 2 => Just(Fix::Prefix), 2 => Just(Fix::Postfix)];
    (vec((fix, 0u8..4), 4..9), expr(false), vec(0u8..2, 1..6)).prop_map(|(ops, e, spaces)| Custom { ops, e, spaces })
}
struct CustomRules(Vec<ParseRule>);
impl ParseModule for CustomRules {
    fn get_module_name(&self) -> &str {
        "Custom"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.0
    }
    fn get_autocomplete_rules(&self) -> &[parser::autocomplete::AutocompleteRule] {
        &[]
    }
}
/// Operators of these sides and levels, and a parser with them.
pub fn custom_parser(ops: &[(Fix, u8)]) -> (Table, Setup) {
    const SYMBOLS: &[&str] = &["+", "-", "*", "/", "!", "~", "&", "@", "%", "$", "§", "¿"];
    let mut table = Table { infix: vec![], prefix: vec![], postfix: vec![], apply: None };
    let base = [(Fix::Left, 1), (Fix::Prefix, 2), (Fix::Postfix, 1)];
    for (i, (fix, level)) in base.iter().chain(ops).enumerate() {
        // One side per level: 4 levels, split in four by side.
        let side = match fix {
            Fix::Left => 0,
            Fix::Right => 1,
            Fix::Prefix => 2,
            Fix::Postfix => 3,
        };
        let op = Op {
            symbols: vec![SYMBOLS[i].to_string()],
            name: format!("Custom::Op{i}"),
            fix: *fix,
            power: 10 + 40 * *level as u16 + 10 * side,
        };
        match fix {
            Fix::Left | Fix::Right => table.infix.push(op),
            Fix::Prefix => table.prefix.push(op),
            Fix::Postfix => table.postfix.push(op),
        }
    }
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let core = Rc::new(CoreRules::new(&mut m, &built_in));
    let mut rules = vec![];
    for op in table.infix.iter().chain(&table.prefix).chain(&table.postfix) {
        let id = m.with_rule_name(PathIdentifier::new(op.name.split("::").map(|s| s.to_string()).collect()));
        let p = just_operator_parser(op.symbols.clone());
        rules.push(match op.fix {
            Fix::Left => left_infix_rule(id, op.power, p),
            Fix::Right => right_infix_rule(id, op.power, p),
            Fix::Prefix => prefix_rule(id, op.power, p),
            Fix::Postfix => postfix_rule(id, op.power, p),
        });
    }
    let names = m.get_rule_name_map().clone();
    let modules: Vec<Rc<dyn ParseModule>> = vec![built_in.clone(), core, Rc::new(CustomRules(rules))];
    let s = Setup {
        parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, modules))),
        names,
        by_id: HashMap::new(),
    };
    (table, s)
}
fn custom_check(c: &Custom, o: &mut Obs) -> Result<(), String> {
    let (table, s) = custom_parser(&c.ops);
    let parse = |r: &R| {
        let input: Vec<_> = r.0.iter().map(N::to_input).collect();
        T::of(&s.parser.parse(&input), &s)
    };
    o.label_if(c.ops.iter().any(|x| x.0 == Fix::Right), "right-grouping operator");
    compare(&Case { e: c.e.clone(), spaces: c.spaces.clone() }, &table, &parse, o)
}

/// Every pair of operators, next to each other.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Pair {
    a: Sel,
    b: Sel,
    shape: u8,
}
fn pair() -> impl Strategy<Value = Pair> {
    (sel(), sel(), 0u8..8).prop_map(|(a, b, shape)| Pair { a, b, shape })
}
fn pair_check(c: &Pair, o: &mut Obs) -> Result<(), String> {
    let atom = |i: u16| Box::new(E::Atom(i * 6000));
    let x = Box::new(E::Infix(c.b, vec![], atom(0), atom(1)));
    let e = match c.shape {
        0 => E::Infix(c.a, vec![], x, atom(2)),
        1 => E::Infix(c.a, vec![], atom(2), x),
        2 => E::Prefix(c.a, vec![], x),
        3 => E::Infix(c.b, vec![], Box::new(E::Prefix(c.a, vec![], atom(0))), atom(1)),
        4 => E::Infix(c.b, vec![], atom(0), Box::new(E::Prefix(c.a, vec![], atom(1)))),
        5 => E::Postfix(c.a, x),
        6 => E::Prefix(c.b, vec![], Box::new(E::Postfix(c.a, atom(0)))),
        _ => E::Postfix(c.a, Box::new(E::Prefix(c.b, vec![], atom(0)))),
    };
    o.label(format!("shape {}", c.shape));
    compare(&Case { e, spaces: vec![1] }, &standard(), &parse, o)
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C21",
        rule: "A case is a random expression tree over all published operators (with sub- and superscripts on operators and operands, applications, fractions, roots and tables), written out with minimal brackets, with minimal brackets and random spaces, and with a bracket around every operand; each must parse to that tree. Part custom uses a random operator table (levels, left- and right-grouping, prefix, postfix). Non-trivial when the tree has at least two operators.",
        assumptions: vec!["stand-in parser combinator library, see C19"],
        parts: vec![
            part("standard", 280_000, 5_600_000, case, check),
            part("pairs", 56_000, 1_120_000, pair, pair_check),
            part("custom", 56_000, 1_120_000, custom, custom_check),
        ],
    }]
}
