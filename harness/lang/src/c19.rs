//! C19: every formula parses. C20: the tree covers the formula.
use crate::soup::{self, UNKNOWN};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use setup::{parse, setup, Kids, T};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, ensure_eq, gen, model::*};

fn text(r: &[N]) -> Result<String, String> {
    r.iter()
        .map(|n| match n {
            N::S(s) => Ok(s.as_str()),
            N::C(..) => Err("an element with rows where symbols are expected".to_string()),
        })
        .collect()
}

/// Every leaf of the tree of one row: (first offset, symbols, is unknown)
fn leaves(t: &T) -> Vec<(std::ops::Range<usize>, String, bool)> {
    let mut out = vec![];
    t.walk_row(&mut |n| {
        if let Kids::Leaf(_, s) = &n.kids {
            out.push((n.range.clone(), s.concat(), n.name == "Error::UnknownToken"));
        }
    });
    out
}

/// Checks that `t` is a tree of exactly the row `r`. Returns the number of nodes.
pub fn covers(t: &T, r: &R) -> Result<usize, String> {
    ensure_eq!(t.range, 0..r.len(), "range of the root of {r:?}");
    node(t, r)
}
fn node(t: &T, row: &R) -> Result<usize, String> {
    let span = &t.range;
    ensure!(span.start <= span.end && span.end <= row.len(), "{} covers {span:?} of {row:?}", t.name);
    let mut count = 1;
    match &t.kids {
        Kids::Nodes(kids) if kids.is_empty() => {
            ensure!(span.is_empty(), "{} has no children but covers {span:?} of {row:?}", t.name);
        }
        Kids::Nodes(kids) => {
            let mut at = span.start;
            for k in kids {
                ensure_eq!(k.range.start, at, "start of {} in {} in {row:?}", k.name, t.name);
                at = k.range.end;
                count += node(k, row)?;
            }
            ensure_eq!(at, span.end, "end of the last child of {} in {row:?}", t.name);
        }
        Kids::Leaf(_, symbols) => {
            ensure!(!span.is_empty(), "leaf {} covers nothing in {row:?}", t.name);
            ensure_eq!(symbols.concat(), text(&row.0[span.clone()])?, "text of leaf {} in {row:?}", t.name);
            // "stored as a list of grapheme clusters": one per input symbol.
            ensure_eq!(symbols.len(), span.len(), "symbols of leaf {} ({symbols:?}) in {row:?}", t.name);
        }
        Kids::Rows(w, kids) => {
            ensure_eq!(span.len(), 1, "length of {} in {row:?}", t.name);
            let element = &row.0[span.start];
            let N::C(kind, width, rows) = element else {
                return Err(format!("{} has rows but {element:?} has none", t.name));
            };
            let expected = match kind {
                Kind::Frac => &["BuiltIn::Fraction"],
                Kind::Root => &["BuiltIn::Root"],
                Kind::Table => &["BuiltIn::Table"],
                // Scripts are operators of what they are attached to.
                Kind::Sup | Kind::Sub => &["BuiltIn::Operator"],
            };
            ensure!(expected.contains(&t.name.as_str()), "{element:?} has become {}", t.name);
            ensure_eq!((*w, kids.len()), (*width, rows.len()), "grid of {} in {row:?}", t.name);
            for (k, r) in kids.iter().zip(rows) {
                count += covers(k, r)?;
            }
        }
    }
    Ok(count)
}

/// Error nodes of one row: brackets that match and known symbols are never unknown; symbols no rule knows
/// and brackets that match nothing always are.
fn unknowns(t: &T, r: &R, o: &mut Obs) -> Result<(), String> {
    let mut unknown = vec![false; r.len()];
    for (range, _, u) in leaves(t) {
        for i in range {
            unknown[i] = u;
        }
    }
    let mut open = vec![];
    let mut matched = vec![false; r.len()];
    for (i, n) in r.0.iter().enumerate() {
        if *n == N::s("(") {
            open.push(i);
        } else if *n == N::s(")") {
            if let Some(j) = open.pop() {
                matched[i] = true;
                matched[j] = true;
            }
        }
    }
    for (i, n) in r.0.iter().enumerate() {
        let N::S(s) = n else { continue };
        if UNKNOWN.contains(&s.as_str()) {
            o.label("unknown symbol");
            ensure!(unknown[i], "{s:?} (offset {i}) is not an error in {r:?}");
        } else if s == "(" || s == ")" {
            o.label(if matched[i] { "matched bracket" } else { "unmatched bracket" });
            ensure_eq!(unknown[i], !matched[i], "bracket at {i} is an error in {r:?}");
        } else if soup::OPERATORS.contains(&s.as_str()) || s.chars().all(|c| c.is_ascii_alphanumeric() && !s.is_empty()) {
            ensure!(!unknown[i], "{s:?} (offset {i}) is an unknown token in {r:?}");
        }
    }
    let mut result = Ok(());
    t.walk_row(&mut |n| {
        if let Kids::Rows(_, kids) = &n.kids {
            for (k, row) in kids.iter().zip(r.0[n.range.start].rows()) {
                if result.is_ok() {
                    result = unknowns(k, row, o);
                }
            }
        }
    });
    result
}

fn labels(r: &R, t: &T, o: &mut Obs) {
    o.label_if(!r.containers().is_empty(), "has elements with rows");
    o.label_if(t.count(|t| t.name == "Error::UnknownToken") > 0, "unknown token");
    o.label_if(t.count(|t| t.name == "Error::MissingToken") > 0, "missing token");
    o.label_if(t.count(|t| t.name == "Error::MissingOperator") > 0, "missing operator");
    o.label_if(t.count(|t| t.name == "BuiltIn::Whitespaces") > 0, "spaces");
    o.label_if(t.count(|t| t.name == "String::String") > 0, "string");
    o.label_if(t.errors().is_empty(), "no error");
}

/// Parses; nothing may crash, in particular not on a second use of the same parser or with a fresh one.
fn total(r: &R, o: &mut Obs) -> Result<(), String> {
    let t = parse(r)?;
    labels(r, &t, o);
    o.nontrivial_if(!t.errors().is_empty());
    ensure_eq!(t.range, 0..r.len(), "range of the tree of {r:?}");
    // An empty row is an incomplete part.
    if r.is_empty() {
        ensure_eq!(t.errors().len(), 1, "errors in an empty row");
    }
    for p in r.rows() {
        let row = r.get(&p).unwrap();
        o.label_if(row.is_empty() && !p.is_empty(), "empty inner row");
    }
    let empty_rows = r.rows().iter().filter(|p| r.get(p).unwrap().is_empty()).count();
    ensure!(
        t.count(|t| t.name == "Error::MissingToken" || t.name == "BuiltIn::Nothing") >= empty_rows,
        "{empty_rows} empty rows but fewer missing tokens in {t:?}"
    );
    o.evals(2);
    Ok(())
}
fn errors(r: &R, o: &mut Obs) -> Result<(), String> {
    let t = parse(r)?;
    labels(r, &t, o);
    o.nontrivial_if(t.count(|t| t.name == "Error::UnknownToken") > 0);
    unknowns(&t, r, o)
}
fn fresh(r: &R, o: &mut Obs) -> Result<(), String> {
    let a = parse(r)?;
    let s = setup();
    let input: Vec<_> = r.0.iter().map(N::to_input).collect();
    let b = T::of(&s.parser.parse(&input), &s)?;
    o.nontrivial_if(r.len() > 1);
    ensure_eq!(a, b, "tree by a used parser (actual) and by a new one (expected)");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    /// opening brackets that nothing closes
    open: usize,
    /// nested, closed brackets
    nested: usize,
    body: Vec<String>,
    repeat: usize,
}
fn long() -> impl Strategy<Value = Long> {
    let sym = gen::pick(&["a", "1", "+", "-", "*", "=", ",", "!", " ", "#", "/", "∑"]);
    (0usize..5, 0usize..40, vec(sym, 1..12), 1usize..120)
        .prop_map(|(open, nested, body, repeat)| Long { open, nested, body, repeat })
}
fn long_check(c: &Long, o: &mut Obs) -> Result<(), String> {
    let mut v = vec!["(".to_string(); c.open + c.nested];
    for _ in 0..c.repeat {
        v.extend(c.body.iter().cloned());
    }
    v.extend(vec![")".to_string(); c.nested]);
    let r = R(v.into_iter().map(N::S).collect());
    o.label(format!("{} symbols", r.len().next_power_of_two()));
    o.nontrivial_if(r.len() > 50);
    let (tx, rx) = std::sync::mpsc::channel();
    let row = r.clone();
    let worker = move || {
        let _ = tx.send(vcommon::runner::guarded(|| parse(&row).and_then(|t| covers(&t, &row))));
    };
    std::thread::Builder::new().stack_size(512 << 20).spawn(worker).expect("spawn");
    let limit = if c.open > 12 { 5 } else { 50 };
    match rx.recv_timeout(std::time::Duration::from_secs(limit)) {
        Ok(r) => r.map(|n| o.evals(n)),
        Err(_) => Err(format!("no tree after {limit} s for a row of {} symbols with {} unclosed brackets", r.len(), c.open)),
    }
}

fn cover(r: &R, o: &mut Obs) -> Result<(), String> {
    let t = parse(r)?;
    labels(r, &t, o);
    o.nontrivial_if(t.count(|t| matches!(&t.kids, Kids::Nodes(k) if k.len() > 1)) > 0);
    o.evals(covers(&t, r)?);
    Ok(())
}
/// Reading the leaves left to right, descending into rows, gives the symbols in reading order.
fn leaf_text(r: &R, o: &mut Obs) -> Result<(), String> {
    fn of_tree(t: &T, out: &mut Vec<String>) {
        match &t.kids {
            Kids::Leaf(_, s) => out.push(s.concat()),
            Kids::Nodes(k) => k.iter().for_each(|c| of_tree(c, out)),
            Kids::Rows(w, k) => {
                out.push(format!("<{w}"));
                k.iter().for_each(|c| {
                    of_tree(c, out);
                    out.push("|".into())
                });
                out.push(">".into());
            }
        }
    }
    fn of_row(r: &R, out: &mut Vec<String>) {
        for n in &r.0 {
            match n {
                N::S(s) => out.push(s.clone()),
                N::C(_, w, rows) => {
                    out.push(format!("<{w}"));
                    rows.iter().for_each(|c| {
                        of_row(c, out);
                        out.push("|".into())
                    });
                    out.push(">".into());
                }
            }
        }
    }
    let t = parse(r)?;
    let (mut a, mut b) = (vec![], vec![]);
    of_tree(&t, &mut a);
    of_row(r, &mut b);
    o.nontrivial_if(r.len() > 1);
    o.label_if(!r.containers().is_empty(), "has elements with rows");
    ensure_eq!(a.concat(), b.concat(), "text of the leaves of {r:?}");
    Ok(())
}

pub fn any() -> impl Strategy<Value = R> {
    soup::formula(true)
}
fn without_strings() -> impl Strategy<Value = R> {
    soup::formula(false)
}
fn wide() -> impl Strategy<Value = R> {
    gen::formula(gen::sym_wide()).prop_map(|mut r| {
        // Bounded like the soup, see there.
        let mut left = 6;
        r.map_symbols(&mut |s| {
            if s == "(" {
                if left == 0 {
                    *s = "p".into();
                } else {
                    left -= 1;
                }
            }
        });
        r
    })
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C19",
            rule: "A case is an arbitrary row of operators, atoms, words, brackets, quotes, spaces, unknown symbols and nested elements (up to three levels), or a long row of up to 1,400 symbols; it is parsed by the editor's parser; non-trivial when the tree contains an error node (part fresh: more than one element; part long: more than 50 symbols).",
            assumptions: vec![
                "the parser combinator library the parser takes from git is not available offline; a stand-in with the same interface and meaning is used, which passes all of the parser crate's tests",
                "at most six opening brackets per formula outside part long: unclosed ones cost a factor of three each (recorded as a known finding)",
            ],
            parts: vec![
                part("soup", 100_000, 2_000_000, any, total),
                part("wide", 20_000, 400_000, wide, total),
                part("errors", 100_000, 2_000_000, without_strings, errors),
                part("fresh", 2_000, 40_000, any, fresh),
                part("long", 400, 8_000, long, long_check),
            ],
        },
        Check {
            id: "C20",
            rule: "A case is an arbitrary row as for C19; the tree is compared node by node with the row it covers; non-trivial when some node has at least two children on its row (part text: more than one element).",
            assumptions: vec!["stand-in parser combinator library, see C19"],
            parts: vec![
                part("cover", 360_000, 7_200_000, any, cover),
                part("wide", 90_000, 1_800_000, wide, cover),
                part("text", 120_000, 2_400_000, any, leaf_text),
            ],
        },
    ]
}
