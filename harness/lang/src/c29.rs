//! C29: tokens, and errors exactly where something is wrong.
use crate::expr::*;
use crate::soup::UNKNOWN;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, Kids};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen::*, model::*};

const LETTERS: &[&str] = &["a", "b", "x", "l", "i", "m", "s", "u", "p", "n", "f", "é", "e\u{301}", "中", "ab", "α", "Ⅷ", "𝑥", "ا", "a\u{301}\u{302}"];
/// Symbols that continue a name but do not begin one.
const MARKS: &[&str] = &["_", "٣", "·", "\u{301}", "_1", "1a"];
const DIGITS: &[&str] = &["0", "1", "2", "9", "12", "3", "4"];
const OPERATORS: &[&str] = &["+", "-", "*", "/", "=", "<", "∧", "∑", "!", ","];
const OTHER: &[&str] = &["_", ".", "\"", "\\", " ", "#", "?", "²", "½", "a\u{20e3}", "x-y", "a b", "1.5", "٣.", "🦀"];

fn is_letter(s: &str) -> bool {
    LETTERS.contains(&s)
}
fn is_digit(s: &str) -> bool {
    DIGITS.contains(&s)
}

/// (what, text) of each token, by a plain longest-match scan.
fn tokens(row: &[String]) -> Vec<(&'static str, String)> {
    let mut out = vec![];
    let mut i = 0;
    while i < row.len() {
        let s = row[i].as_str();
        let run = |from: usize, f: &dyn Fn(&str) -> bool| from + row[from..].iter().take_while(|s| f(s)).count();
        let mut end = i + 1;
        let word = ["limsup", "liminf", "lim"]
            .into_iter()
            .find(|w| w.chars().enumerate().all(|(k, c)| row.get(i + k).is_some_and(|s| *s == c.to_string())));
        let what = if let Some(w) = word {
            end = i + w.len();
            "BuiltIn::Operator"
        } else if is_letter(s) {
            end = run(i, &|s| is_letter(s) || is_digit(s) || MARKS.contains(&s));
            "Core::Variable"
        } else if is_digit(s) {
            end = run(i, &is_digit);
            if row.get(end).is_some_and(|s| s == ".") && row.get(end + 1).is_some_and(|s| is_digit(s)) {
                end = run(end + 1, &is_digit);
            }
            "Arithmetic::Number"
        } else if s == "\"" {
            let mut j = i + 1;
            while j < row.len() && row[j] != "\"" {
                j += if row[j] == "\\" { 2 } else { 1 };
            }
            if j < row.len() {
                end = j + 1;
                "String::String"
            } else {
                "Error::UnknownToken"
            }
        } else if OPERATORS.contains(&s) {
            "BuiltIn::Operator"
        } else {
            "Error::UnknownToken"
        };
        if s != " " {
            out.push((what, row[i..end].concat()));
        }
        i = end;
    }
    out
}

/// A text in quotes: plain symbols, operators and escapes of anything.
fn quoted() -> impl Strategy<Value = Vec<String>> {
    let any = || prop_oneof![pick(&["\"", "\\", "\\", " ", "+", "l"]), pick(LETTERS), pick(DIGITS), pick(OPERATORS), pick(OTHER), pick(MARKS)];
    let plain = any().prop_filter("needs no escape", |s| s != "\"" && s != "\\").prop_map(|s| vec![s]);
    let escaped = any().prop_map(|s| vec!["\\".to_string(), s]);
    vec(prop_oneof![2 => plain, 1 => escaped], 0..5).prop_map(|v| {
        let mut out = vec!["\"".to_string()];
        out.extend(v.concat());
        out.push("\"".to_string());
        out
    })
}
fn soup() -> impl Strategy<Value = Vec<String>> {
    let word = |w: &'static str| Just(w.chars().map(|c| c.to_string()).collect::<Vec<_>>());
    let one = |l: &'static [&'static str]| pick(l).prop_map(|s| vec![s]);
    let piece = prop_oneof![
        4 => one(LETTERS),
        4 => one(DIGITS),
        4 => one(OPERATORS),
        4 => one(OTHER),
        2 => one(MARKS),
        2 => one(&["\""]),
        2 => quoted(),
        1 => word("lim"),
        1 => word("limsup"),
        1 => word("limin"),
        1 => word("3.14"),
        1 => word("\"a\\\"b\""),
        1 => (pick(DIGITS), 2usize..30).prop_map(|(s, n)| vec![s; n]),
        1 => (pick(LETTERS), 2usize..30).prop_map(|(s, n)| vec![s; n]),
        1 => (pick(&[" ", "#", ".", "+", "!"]), 2usize..12).prop_map(|(s, n)| vec![s; n]),
    ];
    vec(piece, 0..12).prop_map(|v| v.concat())
}
fn soup_check(c: &Vec<String>, o: &mut Obs) -> Result<(), String> {
    let row = R(c.iter().cloned().map(N::S).collect());
    let t = parse(&row)?;
    let mut actual: Vec<(String, String)> = vec![];
    let mut nested = Ok(());
    t.walk_row(&mut |n| match &n.kids {
        Kids::Leaf(_, s) if n.name != "BuiltIn::Whitespace" && s.concat() != " " => {
            actual.push((n.name.clone(), s.concat()))
        }
        Kids::Rows(..) => nested = Err("rows out of nowhere".to_string()),
        _ => {}
    });
    nested?;
    let expected: Vec<(String, String)> = tokens(c).into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    for (what, text) in &expected {
        o.label(what.as_str());
        o.label_if(what == "Arithmetic::Number" && text.contains('.'), "number with fraction");
        o.label_if(what == "BuiltIn::Operator" && text.starts_with("lim"), "word operator");
    }
    o.nontrivial_if(expected.len() > 1);
    o.evals(expected.len());
    ensure_eq!(actual, expected, "tokens of {c:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Valid {
    e: E,
    spaces: Vec<u8>,
    unknown: String,
    at: Sel,
}
fn valid() -> impl Strategy<Value = Valid> {
    (expr(true), vec(0u8..3, 1..8), pick(UNKNOWN), sel())
        .prop_map(|(e, spaces, unknown, at)| Valid { e, spaces, unknown, at })
}
fn valid_check(c: &Valid, o: &mut Obs) -> Result<(), String> {
    let table = standard();
    let mut p = Printer::new(&table, Style::Minimal, &c.spaces);
    let mut row = p.row(&c.e);
    let t = parse(&row)?;
    ensure!(t.errors().is_empty(), "the well-formed {row:?} has errors: {:?}", t.errors());
    // Into a row of the formula, outside of strings.
    let mut places = vec![];
    for path in row.rows() {
        let r = row.get(&path).unwrap();
        let mut inside = false;
        for i in 0..=r.len() {
            if !inside {
                places.push((path.clone(), i));
            }
            if r.0.get(i) == Some(&N::s("\"")) {
                inside = !inside;
            }
        }
    }
    let (path, at) = &places[choose(c.at, places.len())];
    o.label_if(!path.is_empty(), "unknown symbol in an inner row");
    row.get_mut(path).unwrap().0.insert(*at, N::S(c.unknown.clone()));
    let t = parse(&row)?;
    let found = t.errors().iter().any(|e| e.name == "Error::UnknownToken" && e.kids == Kids::Leaf(false, vec![c.unknown.clone()]));
    ensure!(found, "{:?} is not reported in {row:?}: {:?}", c.unknown, t.errors());
    o.nontrivial_if(row.len() > 2);
    Ok(())
}

/// operand op operand op … with one operand left out.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Missing {
    operators: Vec<String>,
    operands: Vec<Sel>,
    drop: Sel,
    spaced: bool,
    /// leave out an operator instead
    operator: bool,
}
fn missing() -> impl Strategy<Value = Missing> {
    prop_oneof![6 => 1usize..6, 1 => 6usize..30].prop_flat_map(|n| {
        (
            vec(pick(&["*", "/", "=", "<", ">", "≤", ",", "∧", "∨", "⟹", "+", "-"]), n),
            vec(sel(), n + 1),
            sel(),
            any::<bool>(),
            any::<bool>(),
        )
            .prop_map(|(operators, operands, drop, spaced, operator)| Missing { operators, operands, drop, spaced, operator })
    })
}
fn missing_check(c: &Missing, o: &mut Obs) -> Result<(), String> {
    let n = c.operands.len();
    let mut row = vec![];
    let mut expect = None;
    for i in 0..n {
        let dropped = !c.operator && choose(c.drop, n) == i;
        // Without an operand in front, + and - are signs: then nothing is missing.
        let sign = c.operators.get(i).is_some_and(|s| s == "+" || s == "-");
        if dropped && !sign {
            expect = Some("Error::MissingToken");
        } else {
            let all = atoms();
            row.extend(all[choose(c.operands[i], all.len())].1.iter().map(|s| N::s(s)));
        }
        if c.spaced {
            row.push(N::s(" "));
        }
        if let Some(op) = c.operators.get(i) {
            if c.operator && choose(c.drop, n - 1) == i {
                if !c.spaced {
                    row.push(N::s(" "));
                }
                expect = Some("Error::MissingOperator");
            } else {
                row.push(N::s(op));
            }
        }
    }
    let row = R(row);
    let t = parse(&row)?;
    let found: Vec<&str> = t.errors().iter().map(|e| e.name.as_str()).collect();
    match expect {
        None => ensure!(found.is_empty(), "the complete {row:?} has errors {found:?}"),
        Some("Error::MissingToken") => ensure_eq!(found, vec!["Error::MissingToken"], "errors of {row:?}"),
        Some(_) => ensure_eq!(found, vec!["Error::MissingOperator", "Error::MissingToken"], "errors of {row:?}"),
    }
    o.label(expect.unwrap_or("complete"));
    o.nontrivial_if(n > 2);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C29",
        rule: "A case is a row of letters, marks, digits, quotes, backslashes, word operators, operators and unknown symbols whose leaves are compared with a plain longest-match scan; a well-formed expression over all published operators, which must have no error, and the same with an unknown symbol put somewhere, which must be reported; or a chain of operands and operators with one left out, which must be reported as the one error. Non-trivial: at least two tokens / more than two elements / more than two operands.",
        assumptions: vec!["stand-in parser combinator library, see C19"],
        parts: vec![
            part("tokens", 480_000, 9_600_000, soup, soup_check),
            part("valid", 240_000, 4_800_000, valid, valid_check),
            part("missing", 240_000, 4_800_000, missing, missing_check),
        ],
    }]
}
