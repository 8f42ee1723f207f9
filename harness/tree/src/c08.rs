//! C08: printing.
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure_eq, gen::*, model::*};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    doc: R,
    /// A changed copy: which symbol or element, and how.
    at: Sel,
    how: u8,
}
fn case() -> impl Strategy<Value = Case> {
    (prop_oneof![formula(sym_wide()), formula_with_table(sym_wide())], sel(), any::<u8>())
        .prop_map(|(doc, at, how)| Case { doc, at, how })
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let text = c.doc.to_input().to_string();
    ensure_eq!(parse_printed(&text)?, c.doc, "formula read back from {text}");
    o.label_if(text.contains("\\\""), "escaped quote");
    o.label_if(text.contains("\\\\"), "escaped backslash");
    o.label_if(!c.doc.containers().is_empty(), "has elements with rows");
    o.nontrivial_if(!c.doc.is_empty());
    o.evals(2 + c.doc.len());
    for n in &c.doc.0 {
        let one = R(vec![n.clone()]);
        let text = format!("(row {})", n.to_input());
        ensure_eq!(parse_printed(&text)?, one, "element read back from {text}");
    }
    // A slightly different formula prints differently (also follows from reading back).
    let mut other = c.doc.clone();
    let elements: Vec<(Path, usize)> = c
        .doc
        .rows()
        .into_iter()
        .flat_map(|p| (0..c.doc.get(&p).unwrap().len()).map(move |i| (p.clone(), i)))
        .collect();
    if !elements.is_empty() {
        let (p, i) = &elements[choose(c.at, elements.len())];
        let row = other.get_mut(p).unwrap();
        match (&mut row.0[*i], c.how % 4) {
            (N::S(s), 0) => s.push('\\'),
            (N::S(s), 1) => s.push('"'),
            (N::S(s), _) => s.insert(0, ' '),
            (N::C(Kind::Table, w, rows), 0) => *w = if *w == 1 { rows.len() } else { 1 },
            (N::C(k, 1, rows), 1) if rows.len() == 1 => *k = if *k == Kind::Sup { Kind::Sub } else { Kind::Sup },
            (N::C(k, w, rows), 2) if rows.len() == 2 && *k != Kind::Table => {
                (*k, *w) = if *k == Kind::Frac { (Kind::Root, 2) } else { (Kind::Frac, 1) }
            }
            (N::C(_, _, rows), _) => rows.reverse(),
        }
        if other != c.doc {
            o.label("compared with a near miss");
            let t2 = other.to_input().to_string();
            if t2 == text {
                return Err(format!("{:?} and {:?} both print {text}", c.doc, other));
            }
        }
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C08",
        rule: "A case is a formula with symbols rich in quotes, backslashes, spaces, brackets and arbitrary characters; its printed form is read back by an independent reader and compared, and a minimally different formula must print differently; non-trivial when not empty.",
        assumptions: vec!["the textual form is the S-expression documented by the repository's printing tests"],
        parts: vec![part("print", 720_000, 14_400_000, case, check)],
    }]
}
