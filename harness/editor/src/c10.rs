//! C10: what is written is read back unchanged; C11: whatever is read is rejected or well-formed.
use crate::c13::brackets;
use crate::ed::*;
use caret::caret::MinimalCaretSelection;
use caret::math_editor::SerializedDataType;
use input_tree::focus::{MinimalInputGridRange, MinimalInputRowPosition, MinimalInputRowRange};
use input_tree::grid::{GridRectangle, GridVec};
use input_tree::node::InputNode;
use input_tree::row::{InputRow, Offset, RowIndices};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use serialization::{deserialize_input_nodes, serialize_input_nodes};
use std::fmt::Debug;
use vcommon::runner::{part, Check, Obs};
use vcommon::{
    ensure, ensure_eq,
    gen::{self, choose, sel, Sel},
    model::*,
};

fn sym() -> BoxedStrategy<String> {
    prop_oneof![3 => gen::sym_wide(), 2 => any::<String>(), 1 => "[\u{0}-\u{1f}\"\\\\/\u{7f}\u{2028}\u{2029}\u{feff}]{0,3}"].boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Nodes {
    nodes: R,
}
fn nodes_case() -> impl Strategy<Value = Nodes> {
    prop_oneof![gen::row_of(sym(), 2, 5), gen::row_of(sym(), 3, 3), gen::row_of(sym(), 0, 40)].prop_map(|nodes| Nodes { nodes })
}
fn nodes_check(c: &Nodes, o: &mut Obs) -> Result<(), String> {
    o.nontrivial_if(!c.nodes.is_empty());
    o.label_if(c.nodes.depth() > 1, "nested twice");
    let input = nodes_to_input(&c.nodes.0);
    let text = serialize_input_nodes(&input, SerializedDataType::JsonInputTree).map_err(|e| format!("cannot be written: {e}"))?;
    let back = deserialize_input_nodes(text.clone(), Some(SerializedDataType::JsonInputTree))
        .map_err(|e| format!("cannot be read back: {e}: {text}"))?;
    ensure_eq!(nodes_from_input(&back)?, c.nodes.0.clone(), "elements read back (found, expected) from {text}");
    ensure!(back == input, "the elements read back differ from the written ones: {text}");
    // Single elements and rows are handed to the user interface in the same way.
    for n in &input {
        through_json(n)?;
    }
    through_json(&InputRow::new(input))?;
    o.evals(2 + c.nodes.len());
    Ok(())
}
fn through_json<X: Serialize + DeserializeOwned + PartialEq + Debug>(x: &X) -> Result<(), String> {
    let text = serde_json::to_string(x).map_err(|e| format!("{x:?} cannot be written: {e}"))?;
    let back: X = serde_json::from_str(&text).map_err(|e| format!("{x:?} cannot be read back: {e}: {text}"))?;
    ensure!(*x == back, "{x:?} is read back as {back:?} from {text}");
    let value = serde_json::to_value(x).map_err(|e| e.to_string())?;
    let back: X = serde_json::from_value(value).map_err(|e| format!("{x:?} cannot be read back: {e}: {text}"))?;
    ensure!(*x == back, "{x:?} is read back as {back:?} from a JSON value");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Addresses {
    path: Vec<(usize, usize)>,
    a: usize,
    b: usize,
    /// a grid's size and the numbers of two of its cells
    grid: (usize, usize, usize, usize),
}
fn addresses_case() -> impl Strategy<Value = Addresses> {
    let n = || prop_oneof![4 => 0usize..20, 1 => 0usize..100_000, 1 => (u32::MAX as usize - 3)..=(u32::MAX as usize)];
    (prop_oneof![9 => vec((n(), n()), 0..5), 1 => vec((n(), n()), 5..40)], n(), n(), prop_oneof![9 => 1usize..7, 1 => 7usize..40], prop_oneof![9 => 1usize..7, 1 => 7usize..40], any::<usize>(), any::<usize>()).prop_map(|(path, a, b, w, h, s, e)| {
        Addresses { path, a, b, grid: (w, h, s % (w * h), e % (w * h)) }
    })
}
fn addresses_check(c: &Addresses, o: &mut Obs) -> Result<(), String> {
    let at = |x: usize| MinimalInputRowPosition { row_indices: indices(&c.path), offset: Offset(x) };
    through_json::<RowIndices>(&indices(&c.path))?;
    through_json(&at(c.a))?;
    let row = MinimalInputRowRange { row_indices: indices(&c.path), start: Offset(c.a), end: Offset(c.b) };
    through_json(&row)?;
    through_json(&MinimalCaretSelection::Row(row))?;
    let (w, h, s, e) = c.grid;
    let cells = GridVec::from_one_dimensional(vec![InputRow::default(); w * h], w);
    through_json(&cells)?;
    let grid = MinimalInputGridRange {
        row_indices: indices(&c.path),
        index: c.a,
        range: GridRectangle::new(s.min(e)..s.max(e) + 1, w),
    };
    through_json(&grid)?;
    through_json(&MinimalCaretSelection::Grid(grid))?;
    o.nontrivial_if(!c.path.is_empty());
    o.evals(7);
    Ok(())
}

/// The selection of an editor, copied and pasted into another.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Carry {
    formula: R,
    a: Sel,
    b: Sel,
}
fn carry_case() -> impl Strategy<Value = Carry> {
    (gen::formula(sym()), sel(), sel()).prop_map(|(formula, a, b)| Carry { formula, a, b })
}
fn carry_check(c: &Carry, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let (a, b) = (&p[choose(c.a, p.len())], &p[choose(c.b, p.len())]);
    let mut ed = Ed::with(Words::None, &c.formula, a, b);
    let Shown::Row(path, s, e) = ed.shown() else {
        o.label("block of cells, skipped");
        return Ok(());
    };
    let part = c.formula.get(&path).unwrap().0[s.min(e)..s.max(e)].to_vec();
    o.nontrivial_if(!part.is_empty());
    let text = ed.apply(&Op::Copy).ok_or("copying fails")?;
    let mut other = Ed::new(Words::None);
    ensure!(other.apply(&Op::PasteText(text.clone())).is_some(), "the copied text is rejected: {text}");
    ensure_eq!(other.formula()?, R(part), "copied from {path:?} {s}..{e} of {:?} as {text}", c.formula);
    ensure_eq!(ed.formula()?, c.formula.clone(), "copying changes the formula");
    Ok(())
}

/// Elements within elements within elements.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Deep {
    kinds: Vec<Kind>,
    last: bool,
}
fn deep_case() -> impl Strategy<Value = Deep> {
    let kind = prop_oneof![Just(Kind::Frac), Just(Kind::Root), Just(Kind::Sup), Just(Kind::Sub), Just(Kind::Table)];
    (vec(kind, 1..17), any::<bool>()).prop_map(|(kinds, last)| Deep { kinds, last })
}
fn deep_check(c: &Deep, o: &mut Obs) -> Result<(), String> {
    let mut r = R(vec![N::s("a")]);
    for k in &c.kinds {
        let e = R::default();
        let two = if c.last { vec![e, r.clone()] } else { vec![r.clone(), e] };
        r = R(vec![match k {
            Kind::Frac => N::C(*k, 1, two),
            Kind::Root | Kind::Table => N::C(*k, 2, two),
            _ => N::C(*k, 1, vec![r]),
        }]);
    }
    o.label_if(c.kinds.len() > 8, "more than eight levels");
    nodes_check(&Nodes { nodes: r }, o)
}

// ---------------------------------------------------------------- C11

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Change {
    Number(Sel, i64),
    Huge(Sel),
    Remove(Sel),
    Repeat(Sel),
    Rename(Sel, String),
    Put(Sel, String),
    Swap(Sel, Sel),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Text {
    Json { content: R, changes: Vec<Change>, cut: Option<Sel>, insert: Option<(Sel, String)> },
    Literal(String),
    Deep { kind: String, depth: u8 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Hostile {
    formula: R,
    at: Sel,
    to: Option<Sel>,
    typed: Vec<String>,
    text: Text,
    then: Vec<G>,
}
const NAMES: &[&str] = &["Symbol", "Container", "Fraction", "Root", "Sup", "Sub", "Table", "values", "width", "data", "version", "x"];
const PIECES: &[&str] = &[
    "null", "true", "[]", "{}", "\"\"", "\"a\"", "0", "1", "2", "-1", "1.5", "1e400", "18446744073709551615", "[[]]", "{\"values\":[]}",
    "{\"values\":[],\"width\":0}", "{\"values\":[],\"width\":1}", "{\"Symbol\":\"b\"}", "{\"Symbol\":\"\"}",
    "{\"Container\":[\"Table\",{\"values\":[{\"values\":[]}],\"width\":0}]}",
    "{\"Container\":[\"Fraction\",{\"values\":[{\"values\":[]}],\"width\":1}]}",
    "{\"Container\":[\"Table\",{\"values\":[{\"values\":[]},{\"values\":[]},{\"values\":[]}],\"width\":2}]}",
    "{\"Container\":[\"Root\",{\"values\":[{\"values\":[]},{\"values\":[]}],\"width\":1}]}",
];
fn changes() -> BoxedStrategy<Vec<Change>> {
    let c = prop_oneof![
        4 => (sel(), -2i64..6).prop_map(|(s, n)| Change::Number(s, n)),
        1 => sel().prop_map(Change::Huge),
        3 => sel().prop_map(Change::Remove),
        2 => sel().prop_map(Change::Repeat),
        2 => (sel(), gen::pick(NAMES)).prop_map(|(s, n)| Change::Rename(s, n)),
        3 => (sel(), gen::pick(PIECES)).prop_map(|(s, n)| Change::Put(s, n)),
        2 => (sel(), sel()).prop_map(|(a, b)| Change::Swap(a, b)),
    ];
    vec(c, 0..4).boxed()
}
fn hostile_case() -> impl Strategy<Value = Hostile> {
    let content = prop_oneof![gen::row_of(gen::sym_plain(), 1, 3), gen::row_of(gen::sym_plain(), 2, 2)];
    let json = (content, changes(), proptest::option::weighted(0.1, sel()), proptest::option::weighted(0.1, (sel(), "[\\[\\]{}\",:0-9a-z]{1,3}")))
        .prop_map(|(content, changes, cut, insert)| Text::Json { content, changes, cut, insert });
    let deep = (gen::pick(&["frac", "array", "object", "table"]), any::<u8>()).prop_map(|(kind, depth)| Text::Deep { kind, depth });
    let text = prop_oneof![12 => json, 1 => any::<String>().prop_map(Text::Literal), 1 => "[\\[\\]{}\",:0-9a-z ]{0,30}".prop_map(Text::Literal), 1 => deep];
    (
        gen::formula(gen::sym_plain()),
        sel(),
        proptest::option::weighted(0.4, sel()),
        vec(gen::sym_plain(), 0..2),
        text,
        vec(op(Words::None), 0..6),
    )
        .prop_map(|(formula, at, to, typed, text, then)| Hostile { formula, at, to, typed, text, then })
}
/// All values inside, as paths.
fn places(v: &Value, here: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(i.to_string());
                places(x, here, out);
                here.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                here.push(k.clone());
                places(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
fn at<'a>(v: &'a mut Value, p: &[String]) -> Option<&'a mut Value> {
    let mut v = v;
    for k in p {
        v = match v {
            Value::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?,
            Value::Object(m) => m.get_mut(k)?,
            _ => return None,
        };
    }
    Some(v)
}
fn mutate(v: &mut Value, c: &Change) {
    let mut all = vec![];
    places(v, &mut vec![], &mut all);
    let numbers: Vec<_> = all.iter().filter(|p| at(&mut v.clone(), p).is_some_and(|x| x.is_number())).cloned().collect();
    let any = |s: Sel| all[choose(s, all.len())].clone();
    match c {
        Change::Number(s, n) => {
            if !numbers.is_empty() {
                *at(v, &numbers[choose(*s, numbers.len())]).unwrap() = Value::from(*n);
            }
        }
        Change::Huge(s) => {
            if !numbers.is_empty() {
                *at(v, &numbers[choose(*s, numbers.len())]).unwrap() = Value::from(u64::MAX);
            }
        }
        Change::Remove(s) | Change::Repeat(s) => {
            let p = any(*s);
            if let Some((last, parent)) = p.split_last() {
                let again = matches!(c, Change::Repeat(_));
                match at(v, parent) {
                    Some(Value::Array(a)) => {
                        let i: usize = last.parse().unwrap();
                        if again {
                            let x = a[i].clone();
                            a.insert(i, x);
                        } else {
                            a.remove(i);
                        }
                    }
                    Some(Value::Object(m)) => {
                        if again {
                            let x = m[last].clone();
                            m.insert(format!("{last}2"), x);
                        } else {
                            m.remove(last);
                        }
                    }
                    _ => {}
                }
            }
        }
        Change::Rename(s, n) => {
            let p = any(*s);
            if let Some(Value::String(x)) = at(v, &p) {
                *x = n.clone();
            } else if let Some((last, parent)) = p.split_last() {
                if let Some(Value::Object(m)) = at(v, parent) {
                    if let Some(x) = m.remove(last) {
                        m.insert(n.clone(), x);
                    }
                }
            }
        }
        Change::Put(s, n) => {
            let p = any(*s);
            if let Ok(x) = serde_json::from_str(n) {
                *at(v, &p).unwrap() = x;
            }
        }
        Change::Swap(a, b) => {
            let (p, q) = (any(*a), any(*b));
            let (x, y) = (at(v, &p).cloned(), at(v, &q).cloned());
            if let (Some(x), Some(y)) = (x, y) {
                if let Some(t) = at(v, &p) {
                    *t = y;
                }
                if let Some(t) = at(v, &q) {
                    *t = x;
                }
            }
        }
    }
}
fn text_of(t: &Text) -> String {
    match t {
        Text::Literal(s) => s.clone(),
        Text::Deep { kind, depth } => {
            let n = *depth as usize;
            let (open, middle, close) = match kind.as_str() {
                "array" => ("[", "", "]"),
                "object" => ("{\"data\":", "[]", "}"),
                "frac" => ("{\"Container\":[\"Fraction\",{\"values\":[{\"values\":[]},{\"values\":[", "", "]}],\"width\":1}]}"),
                _ => ("{\"Container\":[\"Table\",{\"values\":[{\"values\":[", "", "]}],\"width\":1}]}"),
            };
            format!("{{\"version\":1,\"data\":[{}{middle}{}]}}", open.repeat(n), close.repeat(n))
        }
        Text::Json { content, changes, cut, insert } => {
            let mut v: Value = serde_json::from_str(&clipboard(&content.0)).expect("JSON");
            for c in changes {
                mutate(&mut v, c);
            }
            let mut s = v.to_string();
            if let Some((i, x)) = insert {
                let mut k = choose(*i, s.len() + 1);
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.insert_str(k, x);
            }
            if let Some(i) = cut {
                let mut k = choose(*i, s.len() + 1);
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            s
        }
    }
}
fn hostile_check(c: &Hostile, o: &mut Obs) -> Result<(), String> {
    let p = c.formula.positions();
    let a = p[choose(c.at, p.len())].clone();
    let b = c.to.map_or(a.clone(), |t| p[choose(t, p.len())].clone());
    let text = text_of(&c.text);
    let prepare = || {
        let mut ed = Ed::with(Words::None, &c.formula, &a, &a);
        // something to undo and something to redo
        ed.apply(&Op::Type(vec!["t".into()]));
        ed.apply(&Op::Type(c.typed.clone()));
        ed.apply(&Op::Undo);
        ed.apply(&Op::Undo);
        ed.place(&a, &b);
        ed
    };
    let mut ed = prepare();
    let before = ed.state()?;
    let op = Op::PasteText(text.clone());
    if !ed.supports(&op) {
        o.label("block of cells, skipped");
        return Ok(());
    }
    if ed.apply(&op).is_none() {
        o.label("rejected");
        o.nontrivial();
        ensure_eq!(ed.state()?, before, "a rejected text changes something: {text}");
        let mut twin = prepare();
        for h in [Op::Redo, Op::Redo, Op::Redo, Op::Undo, Op::Undo, Op::Undo, Op::Undo, Op::Redo] {
            let (x, y) = (ed.apply(&h), twin.apply(&h));
            ensure_eq!(x, y, "{h:?} after a rejected text: {text}");
            ensure_eq!(ed.state()?, twin.state()?, "{h:?} after a rejected text: {text}");
        }
        return Ok(());
    }
    let after = ed.state().map_err(|e| format!("{e}: {text}"))?;
    let changed = !matches!(&c.text, Text::Json { changes, cut: None, insert: None, .. } if changes.is_empty());
    o.label(if changed { "altered text accepted" } else { "own text accepted" });
    o.nontrivial_if(changed);
    // Everything works on the result.
    let size = after.formula.positions().len();
    ensure!(after.shown.is_valid_in(&after.formula), "the caret is not in the formula: {text}");
    ed.apply(&Op::Start((vec![], 0)));
    for _ in 0..size + 1 {
        ed.apply(&Op::Move(Dir::Right));
        ed.e.get_autocomplete();
    }
    for d in [Dir::Up, Dir::Down, Dir::Left] {
        ed.apply(&Op::Move(d));
    }
    ed.apply(&Op::SelectAll);
    let Some(copied) = ed.apply(&Op::Copy) else { return Err(format!("the pasted elements cannot be copied: {text}")) };
    if after.formula.depth() <= 16 {
        let mut other = Ed::new(Words::None);
        ensure!(other.apply(&Op::PasteText(copied)).is_some(), "the pasted elements cannot be copied and pasted: {text}");
        ensure_eq!(other.formula()?, after.formula, "the pasted elements, copied and pasted");
    }
    if brackets(&after.formula) <= 5 && after.formula.depth() < 12 {
        setup::parse(&after.formula)?;
        ed.e.get_syntax_tree();
    }
    ensure!(ed.apply(&Op::Undo).is_some(), "a paste cannot be undone");
    ensure_eq!(ed.state()?, before, "undo of a paste: {text}");
    ed.apply(&Op::Redo);
    ensure_eq!(ed.state()?, after, "redo of a paste: {text}");
    for g in &c.then {
        let op = g.on(&ed.formula()?);
        if ed.supports(&op) {
            ed.apply(&op);
            ed.state()?;
        }
    }
    Ok(())
}

/// The same for what the user interface hands over directly: elements, rows, addresses.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Element {
    content: R,
    changes: Vec<Change>,
}
fn element_case() -> impl Strategy<Value = Element> {
    (gen::row_of(gen::sym_plain(), 2, 2), changes()).prop_map(|(content, changes)| Element { content, changes })
}
fn element_check(c: &Element, o: &mut Obs) -> Result<(), String> {
    let mut v = serde_json::to_value(nodes_to_input(&c.content.0)).map_err(|e| e.to_string())?;
    for x in &c.changes {
        mutate(&mut v, x);
    }
    o.nontrivial_if(!c.changes.is_empty());
    match serde_json::from_value::<Vec<InputNode>>(v.clone()) {
        Ok(n) => {
            nodes_from_input(&n).map_err(|e| format!("{e}: {v}"))?;
            o.label("accepted");
        }
        Err(_) => o.label("rejected"),
    }
    if let Ok(r) = serde_json::from_value::<InputRow>(v.clone()) {
        R::from_input(&r).map_err(|e| format!("{e}: {v}"))?;
    }
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            rule: "Part nodes: element lists with arbitrary symbols (any Unicode, control characters), written and read back. Part addresses: row addresses, positions, row and block selections, grids, through JSON text and JSON values. Part carry: a random selection copied from one editor and pasted into an empty one. Part deep: up to 16 elements nested in one another. Non-trivial when the list, the address or the selection is not empty.",
            assumptions: vec!["numbers fit in 32 bits (the user interface's platform)", "at most 16 levels of nesting (beyond about 20 the known finding applies)"],
            parts: vec![
                part("nodes", 240_000, 4_800_000, nodes_case, nodes_check),
                part("addresses", 240_000, 4_800_000, addresses_case, addresses_check),
                part("carry", 160_000, 3_200_000, carry_case, carry_check),
                part("deep", 12_000, 240_000, deep_case, deep_check),
            ],
        },
        Check {
            id: "C11",
            rule: "Part paste: the clipboard form of random elements with up to three structural changes (numbers, missing, repeated, renamed, replaced, exchanged parts), cut off or with characters inserted, or arbitrary text, or deeply nested text, pasted at a random caret or selection of a formula with a history. A rejected text must leave everything as it was, including what undo and redo do; an accepted one must give a well-formed formula on which every operation works. Part elements: the same changes on element lists handed over directly. Non-trivial when the text is rejected or altered.",
            assumptions: vec![
                "well-formed: every grid has at least one cell and is rectangular; fractions are 1x2, roots 2x1, scripts 1x1",
                "the syntax tree of accepted formulas is asked for up to nesting depth 11, and they are copied and pasted again up to depth 16",
            ],
            parts: vec![
                part("paste", 120_000, 2_400_000, hostile_case, hostile_check),
                part("elements", 160_000, 3_200_000, element_case, element_check),
            ],
        },
    ]
}
