//! The parser as the editor sets it up, and syntax trees as plain values.
use input_tree::grid::Grid;
use input_tree::node::InputNode;
use parser::{
    parse_module::ParseModule,
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
        collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
        function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
    syntax_tree::{LeafNodeType, SyntaxNode, SyntaxNodeChildren, SyntaxNodeNameId, SyntaxNodeNameMap},
};
use std::collections::HashMap;
use std::ops::Range;
use std::rc::Rc;
use vcommon::model::*;

pub struct Setup {
    pub parser: Rc<MathParser>,
    pub names: SyntaxNodeNameMap,
    /// Every rule name of every module, by number.
    pub by_id: HashMap<SyntaxNodeNameId, String>,
}

/// The modules in the order the web bindings add them.
pub fn setup() -> Setup {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let modules: Vec<Rc<dyn ParseModule>> = vec![
        built_in.clone(),
        Rc::new(CoreRules::new(&mut m, &built_in)),
        Rc::new(ArithmeticRules::new(&mut m)),
        Rc::new(CalculusRules::new(&mut m)),
        Rc::new(CollectionsRules::new(&mut m)),
        Rc::new(ComparisonRules::new(&mut m)),
        Rc::new(FunctionRules::new(&mut m, &built_in)),
        Rc::new(LogicRules::new(&mut m)),
        Rc::new(StringRules::new(&mut m)),
    ];
    let mut by_id = HashMap::new();
    for module in &modules {
        for rule in module.get_rules() {
            let id = rule.rule_name().expect("rules have names");
            if let Some(n) = m.get_rule_name_map().get_reverse(*id) {
                by_id.insert(*id, n.to_string());
            }
        }
    }
    let names = m.get_rule_name_map().clone();
    Setup { parser: Rc::new(MathParser::new(ParseModuleCollection::new(built_in, modules))), names, by_id }
}

thread_local! {
    static SETUP: Rc<Setup> = Rc::new(setup());
}
/// The thread's parser (building one is slow compared to parsing a small row).
pub fn shared() -> Rc<Setup> {
    SETUP.with(|s| s.clone())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kids {
    Nodes(Vec<T>),
    /// width and the row-major subtrees
    Rows(usize, Vec<T>),
    Leaf(bool, Vec<String>),
}
/// A syntax tree as a plain value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct T {
    pub name: String,
    pub range: Range<usize>,
    pub kids: Kids,
    pub value: Vec<u8>,
}
impl T {
    /// Fails when a node's number is not registered, or a grid is not rectangular.
    pub fn of(n: &SyntaxNode, s: &Setup) -> Result<T, String> {
        let name = s
            .names
            .get_reverse(n.name)
            .ok_or_else(|| format!("a node carries the unregistered number {:?}", n.name))?
            .to_string();
        let kids = match &n.children {
            SyntaxNodeChildren::Children(c) => {
                Kids::Nodes(c.iter().map(|c| T::of(c, s)).collect::<Result<_, _>>()?)
            }
            SyntaxNodeChildren::NewRows(g) => {
                let rows = g.values().map(|c| T::of(c, s)).collect::<Result<Vec<_>, _>>()?;
                if g.width() == 0 || rows.len() != g.width() * g.height() {
                    return Err(format!("{name}: {} subtrees in a grid of width {}", rows.len(), g.width()));
                }
                Kids::Rows(g.width(), rows)
            }
            SyntaxNodeChildren::Leaf(l) => Kids::Leaf(l.node_type == LeafNodeType::Operator, l.symbols.clone()),
        };
        Ok(T { name, range: n.range(), kids, value: n.value.clone() })
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a T)) {
        f(self);
        match &self.kids {
            Kids::Nodes(k) | Kids::Rows(_, k) => k.iter().for_each(|c| c.walk(f)),
            Kids::Leaf(..) => {}
        }
    }
    /// Nodes on the same row only.
    pub fn walk_row<'a>(&'a self, f: &mut impl FnMut(&'a T)) {
        f(self);
        if let Kids::Nodes(k) = &self.kids {
            k.iter().for_each(|c| c.walk_row(f))
        }
    }
    pub fn count(&self, pred: impl Fn(&T) -> bool) -> usize {
        let mut n = 0;
        self.walk(&mut |t| n += usize::from(pred(t)));
        n
    }
    pub fn errors(&self) -> Vec<&T> {
        let mut out = vec![];
        self.walk(&mut |t| {
            if t.name.starts_with("Error::") {
                out.push(t)
            }
        });
        out
    }
}

pub fn parse(row: &R) -> Result<T, String> {
    let s = shared();
    let input: Vec<InputNode> = row.0.iter().map(N::to_input).collect();
    T::of(&s.parser.parse(&input), &s)
}
