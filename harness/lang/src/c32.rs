//! C32: parsers put together from modules.
use crate::c19::any as any_row;
use crate::expr::*;
use parser::autocomplete::{AutocompleteMatcher, AutocompleteRule};
use parser::make_parser::{just_operator_parser, just_symbol_parser};
use parser::parse_module::*;
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
    collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
    function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use parser::syntax_tree::PathIdentifier;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, Kids, Setup, T};
use std::collections::HashMap;
use std::rc::Rc;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

/// In the editor's order.
const MODULES: [&str; 8] = ["Core", "Arithmetic", "Calculus", "Collections", "Comparison", "Function", "Logic", "String"];

struct Own {
    name: String,
    rules: Vec<ParseRule>,
    complete: Vec<AutocompleteRule>,
}
impl ParseModule for Own {
    fn get_module_name(&self) -> &str {
        &self.name
    }
    fn get_rules(&self) -> &[ParseRule] {
        &self.rules
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.complete
    }
}
fn module(i: usize, m: &mut ParseModules, b: &BuiltInRules) -> Rc<dyn ParseModule> {
    match MODULES[i] {
        "Core" => Rc::new(CoreRules::new(m, b)),
        "Arithmetic" => Rc::new(ArithmeticRules::new(m)),
        "Calculus" => Rc::new(CalculusRules::new(m)),
        "Collections" => Rc::new(CollectionsRules::new(m)),
        "Comparison" => Rc::new(ComparisonRules::new(m)),
        "Function" => Rc::new(FunctionRules::new(m, b)),
        "Logic" => Rc::new(LogicRules::new(m)),
        _ => Rc::new(StringRules::new(m)),
    }
}
/// `front` and `back` are put in front of and behind the others.
fn assemble(order: &[usize], front: impl FnOnce(&mut ParseModules) -> Vec<Own>, back: impl FnOnce(&mut ParseModules) -> Vec<Own>) -> Setup {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut modules: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    for o in front(&mut m) {
        modules.push(Rc::new(o));
    }
    for &i in order {
        modules.push(module(i, &mut m, &built_in));
    }
    for o in back(&mut m) {
        modules.push(Rc::new(o));
    }
    let names = m.get_rule_name_map().clone();
    Setup { parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, modules))), names, by_id: HashMap::new() }
}
fn none(_: &mut ParseModules) -> Vec<Own> {
    vec![]
}
fn parse_with(s: &Setup, r: &R) -> Result<T, String> {
    let input: Vec<_> = r.0.iter().map(N::to_input).collect();
    T::of(&s.parser.parse(&input), s)
}

/// Whether a row contains what a module's notation begins with; in doubt yes.
fn occurs(i: usize, r: &R) -> bool {
    let text = |l: &[&str]| r.0.iter().any(|n| matches!(n, N::S(s) if l.contains(&s.as_str())));
    let here = match MODULES[i] {
        "Core" => r.0.iter().any(|n| matches!(n, N::S(s) if s == "(" || s.chars().any(|c| c.is_alphanumeric() || c == '_' || !c.is_ascii()))),
        "Arithmetic" => text(&["+", "-", "*", "/", "!", "^"]) || r.0.iter().any(|n| matches!(n, N::S(s) if s.chars().any(|c| c.is_numeric()))),
        "Calculus" => text(&["∞", "∑", "∫"]) || r.0.windows(3).any(|w| w == [N::s("l"), N::s("i"), N::s("m")]),
        "Collections" => text(&[","]),
        "Comparison" => text(&["=", "<", ">", "≤", "≥"]),
        "Function" => text(&["("]),
        "Logic" => text(&["∧", "∨", "¬", "⇔", "⟹", "⊤", "⊥"]),
        _ => text(&["\""]),
    };
    here || r.0.iter().any(|n| n.rows().iter().any(|r| occurs(i, r)))
}

/// Order and choice of the modules.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chosen {
    row: R,
    /// position of each module
    keys: Vec<u8>,
    /// modules that may be left out
    without: Vec<bool>,
}
fn chosen() -> impl Strategy<Value = Chosen> {
    let written = (expr(true), vec(0u8..3, 1..6)).prop_map(|(e, s)| {
        let t = standard();
        let r = Printer::new(&t, Style::Minimal, &s).row(&e);
        r
    });
    (prop_oneof![3 => any_row(), 2 => written.boxed()], vec(any::<u8>(), 8), vec(prop::bool::weighted(0.8), 8))
        .prop_map(|(row, keys, without)| Chosen { row, keys, without })
}
fn chosen_check(c: &Chosen, o: &mut Obs) -> Result<(), String> {
    let full = parse(&c.row)?;
    let present: Vec<usize> = (0..8).filter(|i| !c.without[*i] || occurs(*i, &c.row)).collect();
    let s = assemble(&present, none, none);
    ensure_eq!(parse_with(&s, &c.row)?, full, "{:?} with only {:?}", c.row, present.iter().map(|i| MODULES[*i]).collect::<Vec<_>>());
    // Word operators are also names: their module has to come later than that of names.
    let mut order = present.clone();
    order.sort_by_key(|i| c.keys[*i]);
    let at = |order: &[usize], m: &str| order.iter().position(|i| MODULES[*i] == m);
    if let (Some(core), Some(calculus)) = (at(&order, "Core"), at(&order, "Calculus")) {
        if core > calculus {
            order.swap(core, calculus);
        }
    }
    let s = assemble(&order, none, none);
    ensure_eq!(parse_with(&s, &c.row)?, full, "{:?} with {:?}", c.row, order.iter().map(|i| MODULES[*i]).collect::<Vec<_>>());
    o.label(format!("{} modules", present.len()));
    o.label_if(order != present, "other order");
    o.nontrivial_if(c.row.len() > 1 && (present.len() < 8 || order != present));
    Ok(())
}

/// A module that claims notation of the others.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Claims {
    e: E,
    spaces: Vec<u8>,
    /// kind of rule, which one, level
    claims: Vec<(u8, Sel, u8)>,
    /// how many of the other modules come later
    later: u8,
}
fn claims() -> impl Strategy<Value = Claims> {
    (expr(true), vec(prop_oneof![2 => Just(0u8), 1 => 1u8..3], 1..6), vec((0u8..4, sel(), 0u8..9), 1..8), prop_oneof![4 => Just(0u8), 1 => Just(8)])
        .prop_map(|(e, spaces, claims, later)| Claims { e, spaces, claims, later })
}
/// Levels of the claimed operators, per side: no level has both.
fn level(fix: Fix, l: u8) -> u16 {
    let l = 30 + 90 * l as u16;
    match fix {
        Fix::Left => l,
        Fix::Right => l + 3,
        Fix::Prefix => l + 5,
        Fix::Postfix => l + 7,
    }
}
fn claims_check(c: &Claims, o: &mut Obs) -> Result<(), String> {
    let published = standard();
    let mut table = standard();
    let mut names: HashMap<String, String> = HashMap::new();
    let mut own = vec![];
    for (n, (kind, which, l)) in c.claims.iter().enumerate() {
        let name = format!("Own::Rule{n}");
        let (list, fixes): (&mut Vec<Op>, Fix) = match kind {
            0 => (&mut table.infix, if l % 3 == 0 { Fix::Right } else { Fix::Left }),
            1 => (&mut table.prefix, Fix::Prefix),
            2 => (&mut table.postfix, Fix::Postfix),
            _ => {
                let words = ["∞", "⊤", "⊥", "7", "a"];
                let w = words[choose(*which, words.len())];
                names.insert(w.to_string(), name.clone());
                own.push((name, None, vec![w.to_string()], 0));
                continue;
            }
        };
        // Of word operators the longer ones have to be claimed later; they are left alone.
        let free: Vec<usize> = (0..list.len()).filter(|i| list[*i].symbols.len() == 1).collect();
        let i = free[choose(*which, free.len())];
        list[i].name = name.clone();
        list[i].fix = fixes;
        list[i].power = level(fixes, *l);
        own.push((name, Some(fixes), list[i].symbols.clone(), list[i].power));
    }
    let build = |m: &mut ParseModules| {
        let rules = own
            .iter()
            .map(|(name, fix, symbols, power)| {
                let id = m.with_rule_name(PathIdentifier::new(name.split("::").map(String::from).collect()));
                match fix {
                    None => atom_rule(id, just_symbol_parser(symbols[0].as_str())),
                    Some(Fix::Left) => left_infix_rule(id, *power, just_operator_parser(symbols.clone())),
                    Some(Fix::Right) => right_infix_rule(id, *power, just_operator_parser(symbols.clone())),
                    Some(Fix::Prefix) => prefix_rule(id, *power, just_operator_parser(symbols.clone())),
                    Some(Fix::Postfix) => postfix_rule(id, *power, just_operator_parser(symbols.clone())),
                }
            })
            .collect();
        vec![Own { name: "Own".into(), rules, complete: vec![] }]
    };
    let all: Vec<usize> = (0..8).collect();
    let later = c.later > 0;
    let s = if later { assemble(&all, build, none) } else { assemble(&all, none, build) };
    let table = if later { &published } else { &table };
    let mut p = Printer::new(table, Style::Minimal, &c.spaces);
    let row = p.row(&c.e);
    let expected = p.expected(&c.e);
    let mut t = parse_with(&s, &row)?;
    // Claimed atoms, back to what the printer calls them.
    fn rename(t: &mut T, names: &HashMap<String, String>, seen: &mut usize) -> Result<(), String> {
        match &mut t.kids {
            Kids::Leaf(_, s) => {
                if let Some(own) = names.get(&s.concat()) {
                    if t.name == "BuiltIn::Operator" {
                        return Ok(());
                    }
                    ensure_eq!(&t.name, own, "rule that reads {:?}", s.concat());
                    t.name = match s.concat().as_str() {
                        "∞" => "Calculus::Infinity",
                        "⊤" => "Logic::True",
                        "⊥" => "Logic::False",
                        "7" => "Arithmetic::Number",
                        _ => "Core::Variable",
                    }
                    .into();
                    *seen += 1;
                }
                Ok(())
            }
            Kids::Nodes(k) | Kids::Rows(_, k) => k.iter_mut().try_for_each(|k| rename(k, names, seen)),
        }
    }
    let mut seen = 0;
    if !later {
        rename(&mut t, &names, &mut seen)?;
    }
    ensure_eq!(normal(&t), expected, "{row:?} with {own:?} {}", if later { "in front" } else { "behind" });
    let count = expected.matches("(Own::").count();
    o.label_if(seen > 0, "claimed atom");
    o.label_if(count > 0, "claimed operator");
    o.label_if(later, "claims in front");
    o.nontrivial_if(seen + count > 0 || later);
    Ok(())
}

/// Completions of several modules.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words {
    order: Vec<Sel>,
    own: Vec<Vec<String>>,
    typed: Vec<String>,
    min: usize,
}
fn words() -> impl Strategy<Value = Words> {
    let w = |w: &'static str| Just(w.chars().map(|c| c.to_string()).collect::<Vec<_>>());
    let one = || pick(&["l", "i", "m", "s", "u", "p", "/", ">", "=", "a"]).prop_map(|s| vec![s]);
    let piece = prop_oneof![3 => one(), 1 => w("lim"), 1 => w("sqrt"), 1 => w("limsup"), 1 => w("matrix"), 1 => w("and"), 1 => w("infinity")];
    (vec(sel(), 0..9), vec(vec(vec(one(), 1..4).prop_map(|v| v.concat().concat()), 0..4), 0..3), vec(piece, 0..5), 1usize..4)
        .prop_map(|(order, own, typed, min)| Words { order, own, typed: typed.concat(), min })
}
fn words_check(c: &Words, o: &mut Obs) -> Result<(), String> {
    let mut order: Vec<usize> = vec![];
    for s in &c.order {
        let i = choose(*s, 8);
        if !order.contains(&i) {
            order.push(i);
        }
    }
    let row: Vec<_> = c.typed.iter().map(|s| N::s(s).to_input()).collect();
    let own = |from: usize| {
        let list: Vec<(usize, Vec<String>)> = c.own.iter().cloned().enumerate().filter(|(i, _)| i % 2 == from).collect();
        move |_: &mut ParseModules| {
            list.into_iter()
                .map(|(i, w)| Own {
                    name: format!("Own{i}"),
                    rules: vec![],
                    complete: w.into_iter().map(|w| AutocompleteRule::new(w.as_str(), vec![N::s(&format!("{i}")).to_input()])).collect(),
                })
                .collect::<Vec<_>>()
        }
    };
    let s = assemble(&order, own(1), own(0));
    // The rules one after the other, last module and last rule first.
    let mut m = ParseModules::new();
    let built_in = BuiltInRules::new(&mut m);
    let mut rules: Vec<AutocompleteRule> = built_in.get_autocomplete_rules().to_vec();
    for o in own(1)(&mut m) {
        rules.extend(o.complete);
    }
    for i in &order {
        rules.extend(module(*i, &mut m, &built_in).get_autocomplete_rules().to_vec());
    }
    for o in own(0)(&mut m) {
        rules.extend(o.complete);
    }
    rules.reverse();
    let mut expected = vec![];
    for at in 0..=row.len() {
        for (i, r) in rules.iter().enumerate() {
            for x in r.matches(&row, at, c.min) {
                expected.push((at, i, x.rule.parser.clone(), x.rule.result.clone(), x.rule_match_length, x.input_match_length));
            }
        }
    }
    let mut actual = vec![];
    for at in 0..=row.len() {
        for x in s.parser.matches(&row, at, c.min) {
            actual.push((at, x.rule.parser.clone(), x.rule.result.clone(), x.rule_match_length, x.input_match_length));
        }
    }
    o.evals(row.len() + 1);
    o.label_if(expected.len() > 3, "several completions");
    o.nontrivial_if(!expected.is_empty());
    let expected: Vec<_> = expected.into_iter().map(|(a, _, b, c, d, e)| (a, b, c, d, e)).collect();
    ensure!(actual == expected, "completions of {:?} with {:?} and {:?}: {:?} instead of {:?}", c.typed, order, c.own, actual, expected);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C32",
        rule: "A case is a row with a choice and an order of the modules, an expression with a module that claims operators and atoms of the published ones at other levels and comes behind (or in front of) them, or a typed text with a choice of modules and completions of our own. Non-trivial: something was left out or reordered / a claimed notation occurs, or the claiming module comes in front / there is a completion.",
        assumptions: vec!["stand-in parser combinator library, see C19"],
        parts: vec![
            part("chosen", 90_000, 1_800_000, chosen, chosen_check),
            part("claims", 90_000, 1_800_000, claims, claims_check),
            part("completions", 90_000, 1_800_000, words, words_check),
        ],
    }]
}
