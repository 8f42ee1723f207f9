use crate::ed::{self, *};
use crate::math_editor::MathEditorBindings;
use crate::math_parser::*;
use caret::math_editor::{MathEditor, SerializedDataType};
use caret::primitive::{primitive_edit::CaretRemoveMode, MoveMode};
use input_tree::direction::{Direction, VerticalDirection};
use input_tree::focus::MinimalInputRowRange;
use input_tree::row::Offset;
use input_tree::node::InputNode;
use parser::autocomplete::AutocompleteRule;
use parser::parse_module::{BoxedParseModule, ParseModule, ParseRule};
use parser::parse_modules::{ParseModuleCollection, ParseModules};
use parser::parser::MathParser;
use parser::rule_collections::{
    arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
    collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
    function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
};
use parser::syntax_tree::{SyntaxNodeNameId, SyntaxNodeNameMap};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use vcommon::runner::{part, Check, Obs};
use vcommon::{ensure, gen::{choose, sel, Sel}, model::*};
use wasm_bindgen::JsValue;

/// The web editor's modules, and two that only complete words, some of them the same.
const MODULES: [&str; 10] = ["core", "arithmetic", "calculus", "collections", "comparison", "function", "logic", "string", "words", "more"];
const WEB: usize = 8;
struct Completions(Vec<AutocompleteRule>);
impl ParseModule for Completions {
    fn get_module_name(&self) -> &str {
        "Completions"
    }
    fn get_rules(&self) -> &[ParseRule] {
        &[]
    }
    fn get_autocomplete_rules(&self) -> &[AutocompleteRule] {
        &self.0
    }
}
fn completions(name: &str) -> Rc<dyn ParseModule> {
    let rule = |p: &str, v: &[&str]| AutocompleteRule::new(p, v.iter().map(|s| InputNode::symbol(*s)).collect());
    Rc::new(Completions(match name {
        "words" => vec![rule("sum", &["X"]), rule("limes", &["Y", "Z"]), rule("uqx", &["é"]), rule("summe", &["W"])],
        _ => vec![rule("sums", &["V"]), rule("sum", &["U", "T"]), rule("inf", &[]), rule("mx1", &["R"])],
    }))
}

/// What the user does, with what only the bindings can be given as well.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Do(G),
    Focus,
    Unfocus,
    /// Clipboards from elsewhere.
    PasteText(String),
    Copy,
    /// Things that are no list of texts, or no list of elements.
    BadType(Value),
    BadSplice(Sel, Value),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    /// The order in which modules are created; those of them that are added, in the order they are added in.
    created: Vec<usize>,
    added: Vec<usize>,
    formula: R,
    ops: Vec<Call>,
}

type Direct = (SyntaxNodeNameMap, Rc<MathParser>);
fn direct(created: &[usize], added: &[usize]) -> Direct {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut made: HashMap<usize, Rc<dyn ParseModule>> = HashMap::new();
    for &i in created {
        let x: Rc<dyn ParseModule> = match MODULES[i] {
            "core" => Rc::new(CoreRules::new(&mut m, &built_in)),
            "arithmetic" => Rc::new(ArithmeticRules::new(&mut m)),
            "calculus" => Rc::new(CalculusRules::new(&mut m)),
            "collections" => Rc::new(CollectionsRules::new(&mut m)),
            "comparison" => Rc::new(ComparisonRules::new(&mut m)),
            "function" => Rc::new(FunctionRules::new(&mut m, &built_in)),
            "logic" => Rc::new(LogicRules::new(&mut m)),
            "string" => Rc::new(StringRules::new(&mut m)),
            other => completions(other),
        };
        made.insert(i, x);
    }
    let mut list: Vec<Rc<dyn ParseModule>> = vec![built_in.clone()];
    list.extend(added.iter().map(|i| made[i].clone()));
    (m.get_rule_name_map().clone(), Rc::new(MathParser::new(ParseModuleCollection::new(built_in, list))))
}
fn bound(created: &[usize], added: &[usize]) -> (SyntaxNodeNameMap, MathParserBindings) {
    let mut m = ParseModulesBindings::new();
    let mut made: HashMap<usize, BoxedParseModule> = HashMap::new();
    for &i in created {
        let x = match MODULES[i] {
            "core" => ParseModulesCreator::make_core(&mut m),
            "arithmetic" => ParseModulesCreator::make_arithmetic(&mut m),
            "calculus" => ParseModulesCreator::make_calculus(&mut m),
            "collections" => ParseModulesCreator::make_collections(&mut m),
            "comparison" => ParseModulesCreator::make_comparison(&mut m),
            "function" => ParseModulesCreator::make_function(&mut m),
            "logic" => ParseModulesCreator::make_logic(&mut m),
            "string" => ParseModulesCreator::make_string(&mut m),
            other => BoxedParseModule::new(completions(other)),
        };
        made.insert(i, x);
    }
    let mut c = ParseModuleCollectionBindings::new(&m);
    for i in added {
        c.add_module(made.remove(i).expect("added once"));
    }
    (m.get_syntax_node_name_map(), MathParserBindings::new(c))
}
fn names(m: &SyntaxNodeNameMap) -> Vec<String> {
    (0..).map_while(|i| m.get_reverse(SyntaxNodeNameId::new(i)).map(|n| n.to_string())).collect()
}

thread_local! {
    // Parsers are slow to make.
    static PARSERS: RefCell<HashMap<(Vec<usize>, Vec<usize>), Rc<(Direct, (SyntaxNodeNameMap, MathParserBindings))>>> = RefCell::default();
}
fn parsers(c: &Case) -> Rc<(Direct, (SyntaxNodeNameMap, MathParserBindings))> {
    let key = (c.created.clone(), c.added.clone());
    PARSERS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 300 {
            p.clear();
        }
        p.entry(key).or_insert_with(|| Rc::new((direct(&c.created, &c.added), bound(&c.created, &c.added)))).clone()
    })
}

fn js(v: impl Serialize) -> JsValue {
    JsValue(serde_json::to_value(v).unwrap())
}
fn json(v: impl Serialize) -> Value {
    serde_json::to_value(v).unwrap()
}
fn real(d: Dir) -> Direction {
    match d {
        Dir::Left => Direction::Left,
        Dir::Right => Direction::Right,
        Dir::Up => Direction::Up,
        Dir::Down => Direction::Down,
    }
}
/// Calls the binding of this operation. The answer as `Ed::apply` gives it: whether something was done, or a text.
fn call(b: &mut MathEditorBindings, op: &Op) -> Option<String> {
    let done = |v: bool| v.then(String::new);
    match op {
        Op::Move(d) => b.move_caret(real(*d), MoveMode::Char),
        Op::Select(d) => return done(b.select_with_caret(real(*d), MoveMode::Char)),
        Op::Remove(m) => {
            let m = match m {
                Del::Left => CaretRemoveMode::Left,
                Del::Right => CaretRemoveMode::Right,
                Del::Range => CaretRemoveMode::Range,
            };
            return done(b.remove_at_caret(m, MoveMode::Char));
        }
        Op::Type(v) => b.insert_at_caret(js(v)).expect("texts can be typed"),
        Op::Paste(r) => b.paste(clipboard(&r.0), Some(SerializedDataType::JsonInputTree)).expect("own clipboard content"),
        Op::PasteText(t) => return b.paste(t.clone(), Some(SerializedDataType::JsonInputTree)).ok().map(|_| String::new()),
        Op::Copy => return b.copy(SerializedDataType::JsonInputTree).ok(),
        Op::SelectAll => b.select_all(),
        Op::Start(p) => b.start_selection(minimal(p), MoveMode::Char),
        Op::Extend(p) => b.extend_selection(minimal(p)),
        Op::Finish => b.finish_selection(),
        Op::Open => return done(b.open_autocomplete()),
        Op::Accept(a) => return done(b.finish_autocomplete(*a)),
        Op::Choose(up) => {
            return done(b.move_in_autocomplete(if *up { VerticalDirection::Up } else { VerticalDirection::Down }))
        }
        Op::Splice(p, x, y, r) => b
            .splice_at_range(
                MinimalInputRowRange { row_indices: indices(p), start: Offset(*x), end: Offset(*y) },
                js(nodes_to_input(&r.0)),
            )
            .expect("elements can be spliced"),
        Op::Undo => return done(b.undo()),
        Op::Redo => return done(b.redo()),
    }
    None
}
fn autocomplete(e: &mut MathEditor) -> Value {
    match e.get_autocomplete() {
        None => Value::Null,
        Some(a) => {
            let (i, m, at) = a.destructure();
            let m: Vec<Value> = m
                .iter()
                .map(|x| json!({"rule": json(x.rule), "rule_match_length": x.rule_match_length, "input_match_length": x.input_match_length}))
                .collect();
            json!({"selected_index": i, "matches": m, "caret_position": json(at)})
        }
    }
}

fn compare(d: &mut Ed, b: &mut MathEditorBindings, o: &mut Obs) -> Result<(), String> {
    let same = |what: &str, d: Value, b: Result<JsValue, JsValue>| match b {
        Ok(b) if b.0 == d => Ok(()),
        b => Err(format!("{what}: the editor has {d}, the bindings report {b:?}")),
    };
    same("formula", json(d.e.get_input_tree()), b.get_input_tree())?;
    same("caret", json(d.e.get_caret()), b.get_caret())?;
    let a = autocomplete(&mut d.e);
    o.label_if(!a.is_null(), "completions offered");
    same("completions", a, b.get_autocomplete())?;
    let mut brackets = 0;
    d.formula()?.map_symbols(&mut |s| brackets += usize::from(s == "("));
    if brackets <= 5 {
        same("syntax tree", json(d.e.get_syntax_tree()), b.get_syntax_tree())?;
    }
    o.evals(1);
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let p = parsers(c);
    let ((direct_names, direct_parser), (bound_names, bound_parser)) = &*p;
    ensure!(names(direct_names) == names(bound_names), "names {:?}, from the bindings {:?}", names(direct_names), names(bound_names));
    let mut d = Ed { e: MathEditor::new(direct_parser.clone()) };
    let mut b = MathEditorBindings::new(bound_parser);
    compare(&mut d, &mut b, o)?;
    let mut done: Vec<Op> = vec![];
    if !c.formula.is_empty() {
        let op = Op::Splice(vec![], 0, 0, c.formula.clone());
        d.apply(&op);
        call(&mut b, &op);
    }
    for g in &c.ops {
        let f = d.formula()?;
        let supported = !d.shown().is_grid();
        let what = match g {
            Call::Do(g) => {
                let op = g.on(&f);
                if !d.supports(&op) {
                    continue;
                }
                let (x, y) = (d.apply(&op), call(&mut b, &op));
                ensure!(x == y, "{op:?}: the editor answers {x:?}, the bindings {y:?}, after {done:?}");
                o.nontrivial_if(x.is_some() || d.formula()? != f);
                o.label(format!("{op:?}").split(|c: char| !c.is_alphabetic()).next().unwrap_or("").to_string());
                done.push(op.clone());
                format!("{op:?}")
            }
            Call::Focus => {
                d.e.focus();
                b.focus();
                "focus".into()
            }
            Call::Unfocus => {
                d.e.unfocus();
                b.unfocus();
                "unfocus".into()
            }
            Call::PasteText(t) if supported => {
                let (x, y) = (d.e.paste(t.clone(), Some(SerializedDataType::JsonInputTree)).map_err(|e| e.to_string()), b.paste(t.clone(), Some(SerializedDataType::JsonInputTree)));
                ensure!(x == y, "pasting {t:?}: the editor answers {x:?}, the bindings {y:?}");
                o.label(if x.is_ok() { "pasted" } else { "paste rejected" });
                "paste".into()
            }
            Call::Copy if supported => {
                let (x, y) = (d.e.copy(SerializedDataType::JsonInputTree).map_err(|e| e.to_string()), b.copy(SerializedDataType::JsonInputTree));
                ensure!(x == y, "copying: the editor answers {x:?}, the bindings {y:?}");
                "copy".into()
            }
            Call::BadType(v) if supported => {
                let y = b.insert_at_caret(JsValue(v.clone()));
                ensure!(y.is_err(), "{v} was typed");
                o.label("not a list of texts");
                format!("typing {v}")
            }
            Call::BadSplice(s, v) => {
                let rows = f.rows();
                let p = &rows[choose(*s, rows.len())];
                let n = f.get(p).unwrap().len();
                let r = MinimalInputRowRange { row_indices: indices(p), start: Offset(0), end: Offset(n) };
                let y = b.splice_at_range(r, JsValue(v.clone()));
                ensure!(y.is_err(), "{v} was spliced");
                o.label("not a list of elements");
                format!("splicing {v}")
            }
            _ => continue,
        };
        compare(&mut d, &mut b, o).map_err(|e| format!("{e}\nafter {what}, after {done:?}"))?;
    }
    Ok(())
}

fn calls() -> BoxedStrategy<Vec<Call>> {
    let bad_text = prop_oneof![
        Just(Value::Null), Just(json!(3)), Just(json!("ab")), Just(json!(["a", 3])), Just(json!([["a"]])), Just(json!({"a": "b"})), Just(json!([null]))
    ];
    let bad_nodes = prop_oneof![
        Just(Value::Null), Just(json!("a")), Just(json!(["a"])), Just(json!([{"Symbol": 3}])), Just(json!([{"Unknown": "a"}])), Just(json!({"Symbol": "a"})),
        Just(json!([{"Symbol": "a"}, {"Container": ["Fraction"]}]))
    ];
    let text = prop_oneof![
        Just(String::new()), Just("{}".to_string()), Just("abc".to_string()), Just("[1]".to_string()),
        Just(r#"{"version":1,"data":[]}"#.to_string()), Just(r#"{"version":2,"data":[]}"#.to_string()), Just(r#"{"version":1,"data":[{"Symbol":1}]}"#.to_string())
    ];
    let one = prop_oneof![
        12 => ed::op(Words::Standard).prop_map(Call::Do),
        1 => Just(Call::Focus),
        1 => Just(Call::Unfocus),
        1 => text.prop_map(Call::PasteText),
        1 => Just(Call::Copy),
        1 => bad_text.prop_map(Call::BadType),
        1 => (sel(), bad_nodes).prop_map(|(s, v)| Call::BadSplice(s, v)),
    ];
    prop_oneof![40 => vec(one.clone(), 1..12), 1 => vec(one, 40..120)].boxed()
}
/// The same formula and operations, with neighbouring letters joined to one symbol here and there.
fn join(v: Vec<String>, at: u32) -> Vec<String> {
    let mut r: Vec<String> = vec![];
    for (i, x) in v.into_iter().enumerate() {
        match r.last_mut() {
            Some(l) if at >> (i % 32) & 1 == 1 => l.push_str(&x),
            _ => r.push(x),
        }
    }
    r
}
fn joined(c: Case, at: u32) -> Case {
    let ops = c.ops.into_iter().enumerate().map(|(i, op)| match op {
        Call::Do(G::Type(v)) => Call::Do(G::Type(join(v, at.rotate_left(i as u32)))),
        other => other,
    });
    Case { ops: ops.collect(), ..c }
}
fn some() -> impl Strategy<Value = u32> {
    prop_oneof![2 => Just(0), 1 => any::<u32>()]
}
fn standard() -> impl Strategy<Value = Case> {
    let all: Vec<usize> = (0..WEB).collect();
    (formula(Words::Standard), calls(), some())
        .prop_map(move |(formula, ops, at)| joined(Case { created: all.clone(), added: all.clone(), formula, ops }, at))
}
/// Some of the modules, in any order.
fn chosen() -> impl Strategy<Value = Case> {
    let all: Vec<usize> = (0..MODULES.len()).collect();
    let lists = (Just(all.clone()).prop_shuffle(), 0..=MODULES.len()).prop_flat_map(|(all, n)| {
        let created = all[..n].to_vec();
        (Just(created.clone()), proptest::sample::subsequence(created, n / 2..=n).prop_shuffle())
    });
    (lists, formula(Words::Standard), calls(), some())
        .prop_map(|((created, added), formula, ops, at)| joined(Case { created, added, formula, ops }, at))
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C34",
        rule: "A case is a choice of modules, a formula and up to 11 (rarely 120) calls of the web bindings, carried out on the bindings and on an editor set up directly; answers, formula, caret, completions, syntax tree and the registered names are compared after each call. Values that are no texts or no elements must be refused and change nothing. Non-trivial when at least one operation has an effect.",
        assumptions: vec![
            "the bindings are called from Rust; JavaScript values are plain data (the generated glue code and serde_wasm_bindgen are not run)",
            "operations the editor leaves unimplemented are not called, as for C13",
        ],
        parts: vec![part("standard", 48_000, 960_000, standard, check), part("chosen", 24_000, 480_000, chosen, check)],
    }]
}
