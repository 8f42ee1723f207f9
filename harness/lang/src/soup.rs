//! Arbitrary rows for the parser: token soup with containers.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Union};
use vcommon::{gen, model::*};

pub const OPERATORS: &[&str] = &[
    "+", "-", "*", "/", "^", "!", "=", "<", ">", "≤", "≥", ",", "∧", "∨", "¬", "⇔", "⟹", "∑", "∫",
];
/// Symbols no rule knows, in no position.
pub const UNKNOWN: &[&str] = &["#", "?", "§", "'", "∮", "…", "[", "]", "|", ";", "👩‍👩‍👧", "\u{0}", "\n"];
const ATOMS: &[&str] = &["a", "b", "x", "s", "1", "2", "0", "∞", "⊤", "⊥", "é", "中", "ab", "12", "_", "e\u{301}"];

/// Flat pieces, so that several symbols that belong together occur together often enough.
fn piece(strings: bool) -> BoxedStrategy<Vec<N>> {
    let one = |l: &'static [&'static str]| gen::pick(l).prop_map(|s| vec![N::S(s)]);
    let word = |w: &'static str| w.chars().map(|c| N::S(c.to_string())).collect::<Vec<_>>();
    let mut v: Vec<(u32, BoxedStrategy<Vec<N>>)> = vec![
        (6, one(OPERATORS).boxed()),
        (8, one(ATOMS).boxed()),
        (2, one(UNKNOWN).boxed()),
        (3, one(&["(", ")"]).boxed()),
        (3, one(&[" "]).boxed()),
        (1, one(&["."]).boxed()),
        (1, Just(word("lim")).boxed()),
        (1, Just(word("limsup")).boxed()),
        (1, Just(word("liminf")).boxed()),
        (1, Just(word("3.14")).boxed()),
        (1, Just(word("f(x)")).boxed()),
        (1, Just(word("()")).boxed()),
        (1, any::<char>().prop_filter("quote", |c| *c != '"' && *c != '\\').prop_map(|c| vec![N::S(c.to_string())]).boxed()),
    ];
    if strings {
        v.push((2, one(&["\"", "\"", "\\"]).boxed()));
        v.push((1, Just(word("\"a+(b\"")).boxed()));
    }
    Union::new_weighted(v).boxed()
}
fn element(depth: u32, strings: bool) -> BoxedStrategy<Vec<N>> {
    if depth == 0 {
        return piece(strings);
    }
    let r = row(depth - 1, strings);
    let container = prop_oneof![
        2 => vec(r.clone(), 2).prop_map(|r| N::C(Kind::Frac, 1, r)),
        1 => vec(r.clone(), 2).prop_map(|r| N::C(Kind::Root, 2, r)),
        3 => r.clone().prop_map(|r| N::C(Kind::Sup, 1, vec![r])),
        3 => r.clone().prop_map(|r| N::C(Kind::Sub, 1, vec![r])),
        1 => gen::table(r, 3, 2),
    ];
    prop_oneof![5 => piece(strings), 1 => container.prop_map(|n| vec![n])].boxed()
}
fn row(depth: u32, strings: bool) -> BoxedStrategy<R> {
    prop_oneof![1 => Just(R::default()), 9 => vec(element(depth, strings), 0..8).prop_map(|v| R(v.concat()))].boxed()
}

/// The parser tries an opening bracket that is not closed in several ways, which multiplies with every
/// further one, and nested rows multiply along; the generators stay where that is small.
fn limit_brackets(r: &mut R, budget: &mut usize) {
    r.0.retain(|n| {
        if *n == N::s("(") {
            if *budget == 0 {
                return false;
            }
            *budget -= 1;
        }
        true
    });
    for n in &mut r.0 {
        for k in n.rows_mut() {
            limit_brackets(k, budget);
        }
    }
}
/// Large in one respect: a long row, a long or high table, or many levels of nesting.
fn large(strings: bool) -> BoxedStrategy<R> {
    let short = vec(piece(strings), 0..3).prop_map(|v| R(v.concat())).boxed();
    prop_oneof![
        6 => vec(piece(strings), 16..60).prop_map(|v| R(v.concat())),
        1 => (vec(piece(strings), 1..40), 2usize..6).prop_map(|(v, n)| R(vec![v.concat(); n].concat())),
        2 => (short.clone(), gen::table(short.clone(), 12, 2)).prop_map(|(mut r, t)| { r.0.push(t); r }),
        2 => (short.clone(), gen::table(short.clone(), 2, 12)).prop_map(|(mut r, t)| { r.0.push(t); r }),
        6 => gen::nested(short, 10),
    ]
    .boxed()
}
pub fn formula(strings: bool) -> BoxedStrategy<R> {
    prop_oneof![
        4 => vec(piece(strings), 0..16).prop_map(|v| R(v.concat())),
        4 => vec(element(2, strings), 0..9).prop_map(|v| R(v.concat())),
        1 => vec(element(3, strings), 0..5).prop_map(|v| R(v.concat())),
        1 => large(strings),
    ]
    .prop_map(|mut r| {
        limit_brackets(&mut r, &mut 6);
        r
    })
    .boxed()
}
