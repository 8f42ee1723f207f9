//! Generators for formulas.
use crate::model::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{BoxedStrategy, Just, Union};

pub fn pick(list: &'static [&'static str]) -> BoxedStrategy<String> {
    proptest::sample::select(list).prop_map(|s| s.to_string()).boxed()
}

pub const LETTERS: &[&str] = &["a", "b", "x", "l", "i", "m"];
pub const PLAIN: &[&str] = &["a", "b", "c", "1", "2", "+", "-", "x"];
pub const SPECIAL: &[&str] = &[
    "\"", "\\", "(", ")", " ", "1x1", "(row", "\\\"", "é", "e\u{301}", "∞", "👩‍👩‍👧", "\n", "\t", "\u{0}", "ab", "#", "ß", "中",
];

/// Symbols for structural properties: mostly plain, some awkward, some arbitrary.
pub fn sym_wide() -> BoxedStrategy<String> {
    prop_oneof![
        6 => pick(PLAIN),
        3 => pick(SPECIAL),
        1 => any::<char>().prop_map(|c| c.to_string()),
        1 => "[\"\\\\() a-c]{1,4}",
    ]
    .boxed()
}
pub fn sym_plain() -> BoxedStrategy<String> {
    pick(PLAIN)
}

/// Elements of at most `depth` nested levels over the given symbols.
pub fn node(sym: BoxedStrategy<String>, depth: u32) -> BoxedStrategy<N> {
    let leaf = sym.clone().prop_map(N::S).boxed();
    if depth == 0 {
        return leaf;
    }
    let row = row_of(sym, depth - 1, 4);
    let container = prop_oneof![
        2 => vec(row.clone(), 2).prop_map(|r| N::C(Kind::Frac, 1, r)),
        2 => vec(row.clone(), 2).prop_map(|r| N::C(Kind::Root, 2, r)),
        2 => row.clone().prop_map(|r| N::C(Kind::Sup, 1, vec![r])),
        2 => row.clone().prop_map(|r| N::C(Kind::Sub, 1, vec![r])),
        3 => table(row, 3, 3),
    ];
    Union::new_weighted(vec![(3, leaf), (2, container.boxed())]).boxed()
}

pub fn table(row: BoxedStrategy<R>, max_w: usize, max_h: usize) -> BoxedStrategy<N> {
    (1..=max_w, 1..=max_h)
        .prop_flat_map(move |(w, h)| (Just(w), vec(row.clone(), w * h)))
        .prop_map(|(w, r)| N::C(Kind::Table, w, r))
        .boxed()
}

/// Rows of up to `max` elements whose elements nest at most `depth` levels.
pub fn row_of(sym: BoxedStrategy<String>, depth: u32, max: usize) -> BoxedStrategy<R> {
    vec(node(sym, depth), 0..=max).prop_map(R).boxed()
}

/// A formula: up to six elements, up to three levels of nesting.
pub fn formula(sym: BoxedStrategy<String>) -> BoxedStrategy<R> {
    prop_oneof![
        3 => row_of(sym.clone(), 2, 5),
        2 => row_of(sym.clone(), 3, 3),
        1 => row_of(sym.clone(), 1, 8),
        1 => large(sym),
    ]
    .boxed()
}

/// A formula that is large in one respect: a long row, a long or high table, or many levels of nesting.
pub fn large(sym: BoxedStrategy<String>) -> BoxedStrategy<R> {
    let row = row_of(sym.clone(), 0, 1);
    prop_oneof![
        10 => vec(node(sym.clone(), 0), 9..40).prop_map(R),
        5 => vec(node(sym.clone(), 1), 6..14).prop_map(R),
        5 => (row_of(sym.clone(), 0, 2), table(row.clone(), 12, 2)).prop_map(|(mut a, t)| { a.0.push(t); a }),
        5 => (row_of(sym.clone(), 0, 2), table(row.clone(), 2, 12)).prop_map(|(mut a, t)| { a.0.push(t); a }),
        10 => nested(row.clone(), 10),
        // Rarely, larger still.
        1 => (vec(node(sym.clone(), 0), 1..40), 2usize..9).prop_map(|(v, n)| R(vec![v; n].concat())),
        1 => (table(row.clone(), 40, 2), node(sym.clone(), 1)).prop_map(|(t, n)| R(vec![t, n])),
        1 => (table(row.clone(), 2, 40), node(sym, 1)).prop_map(|(t, n)| R(vec![n, t])),
        1 => nested(row, 18),
    ]
    .boxed()
}

/// Up to `max` levels, each within any child of an element of any kind, with little around it.
pub fn nested(row: BoxedStrategy<R>, max: usize) -> BoxedStrategy<R> {
    let level = (0u8..6, any::<bool>(), row.clone(), row.clone(), row.clone());
    (row, vec(level, 4..=max))
        .prop_map(|(inner, levels)| {
            levels.into_iter().fold(inner, |inner, (kind, second, before, after, other)| {
                let two = |inner: R| if second { vec![other.clone(), inner] } else { vec![inner, other.clone()] };
                let n = match kind {
                    0 => N::C(Kind::Frac, 1, two(inner)),
                    1 => N::C(Kind::Root, 2, two(inner)),
                    2 => N::C(Kind::Sup, 1, vec![inner]),
                    3 => N::C(Kind::Sub, 1, vec![inner]),
                    4 => N::C(Kind::Table, 2, two(inner)),
                    _ => N::C(Kind::Table, 1, two(inner)),
                };
                R(before.0.into_iter().chain([n]).chain(after.0).collect())
            })
        })
        .boxed()
}

/// A formula that contains at least one table.
pub fn formula_with_table(sym: BoxedStrategy<String>) -> BoxedStrategy<R> {
    let t = table(row_of(sym.clone(), 1, 3), 4, 4);
    (
        row_of(sym.clone(), 2, 3),
        t,
        row_of(sym, 1, 2),
        prop_oneof![Just(0u8), Just(1), Just(2)],
    )
        .prop_map(|(a, t, b, wrap)| {
            let mut v = a.0;
            let inner = R(std::iter::once(t).chain(b.0).collect());
            match wrap {
                0 => v.extend(inner.0),
                1 => v.push(N::C(Kind::Frac, 1, vec![R::default(), inner])),
                _ => v.push(N::C(Kind::Table, 2, vec![inner, R(vec![N::s("q")])])),
            }
            R(v)
        })
        .boxed()
}

/// Unresolved choice, resolved modulo the number of possibilities when the case is evaluated.
pub type Sel = u16;
pub fn sel() -> BoxedStrategy<Sel> {
    any::<u16>().boxed()
}
/// `i` in `0..n`. The selector is scaled rather than taken modulo, so that shrinking it moves towards 0.
pub fn choose(s: Sel, n: usize) -> usize {
    debug_assert!(n > 0);
    ((s as usize) * n) >> 16
}
