//! C17: autocomplete matching.
use parser::autocomplete::{AutocompleteMatcher, AutocompleteRule, AutocompleteRules};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::shared;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    rules: Vec<Vec<String>>,
    /// What stands in front of the caret, then what stands behind it.
    before: R,
    after: R,
    min: usize,
    /// Append a beginning of this rule to `before`.
    spell: Option<(Sel, Sel)>,
}
const NARROW: &[&str] = &["a", "b", "ab", "aa"];
const WIDE: &[&str] = &[
    "a", "l", "i", "m", "é", "e\u{301}", "∞", "中", "👩‍👩‍👧", "👩", ">", "=", "\u{301}", "im", "\"", "ß",
];
fn symbols(list: &'static [&'static str], range: std::ops::Range<usize>) -> impl Strategy<Value = Vec<String>> {
    vec(pick(list), range)
}
fn with(list: &'static [&'static str]) -> impl Strategy<Value = Case> {
    let element = prop_oneof![
        12 => pick(list).prop_map(N::S),
        1 => Just(N::C(Kind::Sup, 1, vec![R(vec![N::s("a")])])),
    ];
    let row = prop_oneof![15 => vec(element.clone(), 0..7), 1 => vec(element, 7..40)].prop_map(R);
    let rule = prop_oneof![15 => symbols(list, 1..7), 1 => symbols(list, 7..40)];
    let rules = prop_oneof![15 => vec(rule.clone(), 1..4), 1 => vec(rule, 4..20)];
    (
        rules,
        row.clone(),
        row,
        prop_oneof![15 => 0usize..5, 1 => 5usize..12],
        proptest::option::weighted(0.7, (sel(), sel())),
    )
        .prop_map(|(rules, before, after, min, spell)| Case { rules, before, after, min, spell })
}
fn narrow() -> impl Strategy<Value = Case> {
    with(NARROW)
}
fn wide() -> impl Strategy<Value = Case> {
    with(WIDE)
}

/// (matched bytes of the rule text, matched symbols)
fn expected(rule: &str, before: &[N], min: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut text = String::new();
    for (k, n) in before.iter().rev().enumerate() {
        let N::S(s) = n else { break };
        text.insert_str(0, s);
        if k + 1 >= min && rule.starts_with(&text) {
            out.push((text.len(), k + 1));
        }
    }
    out
}

fn evaluate(
    rules: &[AutocompleteRule],
    matcher: &dyn AutocompleteMatcher,
    row: &R,
    caret: usize,
    min: usize,
    o: &mut Obs,
) -> Result<(), String> {
    let input: Vec<_> = row.0.iter().map(N::to_input).collect();
    let found = matcher.matches(&input, caret, min);
    let mut actual: Vec<(String, usize, usize)> = vec![];
    for m in &found {
        ensure!(rules.contains(m.rule), "{:?} is not one of the rules", m.rule);
        actual.push((m.rule.parser.clone(), m.rule_match_length, m.input_match_length));
        ensure_eq!(
            m.is_complete_match(),
            row.0[caret - m.input_match_length..caret].iter().map(|n| match n { N::S(s) => s.as_str(), _ => "" }).collect::<String>() == m.rule.parser,
            "completeness of {m:?}"
        );
        o.label_if(m.is_complete_match(), "complete match");
        o.label_if(!m.is_complete_match(), "partial match");
        o.label_if(m.input_match_length > 8, "more than eight symbols match");
        o.label_if(m.rule_match_length != m.input_match_length, "symbols of several bytes");
    }
    let mut wanted: Vec<(String, usize, usize)> = vec![];
    for r in rules {
        let e = expected(&r.parser, &row.0[..caret], min);
        o.label_if(e.len() > 1, "one rule matches twice");
        wanted.extend(e.into_iter().map(|(a, b)| (r.parser.clone(), a, b)));
    }
    o.nontrivial_if(!wanted.is_empty());
    actual.sort();
    wanted.sort();
    ensure_eq!(actual, wanted, "matches (rule, length in the rule, symbols) at {caret} of {row:?}, at least {min}");
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let mut row = c.before.clone();
    if let Some((r, n)) = c.spell {
        let rule = &c.rules[choose(r, c.rules.len())];
        row.0.extend(rule[..1 + choose(n, rule.len())].iter().cloned().map(N::S));
    }
    let caret = row.len();
    row.0.extend(c.after.0.iter().cloned());
    // The rule's own symbols are graphemes; its text may also be spelled by other symbols.
    let rules: Vec<AutocompleteRule> =
        c.rules.iter().map(|r| AutocompleteRule::new(r.concat(), vec![])).collect();
    for r in &rules {
        evaluate(std::slice::from_ref(r), r, &row, caret, c.min, o)?;
    }
    evaluate(&rules, &AutocompleteRules(rules.clone()), &row, caret, c.min, o)?;
    o.evals(rules.len());
    Ok(())
}

const RULES: &[&str] = &[
    "^", "_", "/", "sqrt", "infinity", "lim", "limsup", "liminf", "sum", "integral", "integrate", ">=", "<=", "vector", "matrix",
];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Std {
    row: R,
    word: Sel,
    len: Sel,
    after: R,
    min: usize,
}
fn std_case() -> impl Strategy<Value = Std> {
    let row = || vec(node(pick(&["s", "u", "m", "l", "i", "n", "t", "^", ">", "=", "q", "é"]), 1), 0..6).prop_map(R);
    (row(), sel(), sel(), row(), 0usize..4).prop_map(|(row, word, len, after, min)| Std { row, word, len, after, min })
}
/// The rules the editor offers: those it publishes itself, by their texts and results.
fn std_check(c: &Std, o: &mut Obs) -> Result<(), String> {
    let s = shared();
    let mut row = c.row.clone();
    let word = RULES[choose(c.word, RULES.len())];
    let n = word.chars().count();
    row.0.extend(word.chars().take(choose(c.len, n + 1)).map(|c| N::S(c.to_string())));
    let caret = row.len();
    row.0.extend(c.after.0.iter().cloned());
    let input: Vec<_> = row.0.iter().map(N::to_input).collect();
    let mut actual: Vec<(String, usize, usize)> = s
        .parser
        .matches(&input, caret, c.min)
        .iter()
        .map(|m| (m.rule.parser.clone(), m.rule_match_length, m.input_match_length))
        .collect();
    let mut wanted: Vec<(String, usize, usize)> = vec![];
    for r in RULES {
        wanted.extend(expected(r, &row.0[..caret], c.min).into_iter().map(|(a, b)| (r.to_string(), a, b)));
    }
    o.nontrivial_if(!wanted.is_empty());
    o.label_if(wanted.len() > 1, "several matches");
    actual.sort();
    wanted.sort();
    ensure_eq!(actual, wanted, "matches at {caret} of {row:?}, at least {}", c.min);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C17",
        rule: "A case is up to three rules (seldom up to twenty, with texts of up to forty symbols) and a row with a caret, over few symbols (many overlaps) or over symbols of several bytes, often with the beginning of a rule spelled in front of the caret; the offered matches are compared with a direct search for beginnings of the rule among the last k symbols, for every k. Part published does so for the editor's own rules. Non-trivial when something matches.",
        assumptions: vec!["lengths within a rule are counted in bytes of its text, as the interface documents by comparing them with the text's length", "symbols are not empty"],
        parts: vec![
            part("narrow", 1_800_000, 36_000_000, narrow, check),
            part("wide", 1_800_000, 36_000_000, wide, check),
            part("published", 900_000, 18_000_000, std_case, std_check),
        ],
    }]
}
