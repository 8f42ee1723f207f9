//! Expressions as plain trees, written out with the fewest brackets the published precedences require,
//! and the normal form that a parsed tree is compared in.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use setup::{Kids, T};
use vcommon::gen::{choose, sel, Sel};
use vcommon::model::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Fix {
    Left,
    Right,
    Prefix,
    Postfix,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub symbols: Vec<String>,
    pub name: String,
    pub fix: Fix,
    pub power: u16,
}
fn op(symbols: &str, name: &str, fix: Fix, power: u16) -> Op {
    Op { symbols: symbols.chars().map(|c| c.to_string()).collect(), name: name.into(), fix, power }
}
/// How tightly something binds; the flag breaks ties between the sides of operators of one level.
pub type Bind = (u16, bool);
impl Op {
    /// Towards what stands on the left.
    pub fn left(&self) -> Bind {
        (self.power, matches!(self.fix, Fix::Right | Fix::Postfix))
    }
    /// Towards what stands on the right.
    pub fn right(&self) -> Bind {
        (self.power, matches!(self.fix, Fix::Left | Fix::Prefix))
    }
}

#[derive(Clone, Debug)]
pub struct Table {
    pub infix: Vec<Op>,
    pub prefix: Vec<Op>,
    pub postfix: Vec<Op>,
    /// level of function application, if there is any
    pub apply: Option<u16>,
}
const SCRIPT: u16 = 1000;

/// The published table.
pub fn standard() -> Table {
    use Fix::*;
    Table {
        infix: vec![
            op("=", "Comparison::Equals", Left, 40),
            op("<", "Comparison::LessThan", Left, 50),
            op(">", "Comparison::GreaterThan", Left, 50),
            op("≤", "Comparison::LessThanOrEquals", Left, 50),
            op("≥", "Comparison::GreaterThanOrEquals", Left, 50),
            op(",", "Collections::Tuple", Left, 50),
            op("+", "Arithmetic::Add", Left, 100),
            op("-", "Arithmetic::Subtract", Left, 100),
            op("∧", "Logic::And", Left, 100),
            op("∨", "Logic::Or", Left, 100),
            op("⇔", "Logic::Equivalent", Left, 100),
            op("⟹", "Logic::Implies", Left, 100),
            op("*", "Arithmetic::Multiply", Left, 200),
            op("/", "Arithmetic::Divide", Left, 200),
        ],
        prefix: vec![
            op("-", "Arithmetic::Subtract", Prefix, 400),
            op("+", "Arithmetic::Add", Prefix, 400),
            op("¬", "Logic::Not", Prefix, 100),
            op("∑", "Calculus::Sum", Prefix, 100),
            op("∫", "Calculus::Integral", Prefix, 100),
            op("lim", "Calculus::Lim", Prefix, 100),
            op("limsup", "Calculus::LimSup", Prefix, 100),
            op("liminf", "Calculus::LimInf", Prefix, 100),
        ],
        postfix: vec![
            op("!", "Arithmetic::Factorial", Postfix, 600),
            op("^", "Arithmetic::Exponent", Postfix, 850),
        ],
        apply: Some(800),
    }
}

/// What is attached to an operator: superscript or subscript.
pub type Scripts = Vec<(bool, E)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum E {
    Atom(Sel),
    Infix(Sel, Scripts, Box<E>, Box<E>),
    Prefix(Sel, Scripts, Box<E>),
    Postfix(Sel, Box<E>),
    Apply(Box<E>, Option<Box<E>>),
    Script(bool, Box<E>, Box<E>),
    Frac(Box<E>, Box<E>),
    Root(Box<E>, Box<E>),
    Table(bool, Vec<E>),
    /// an operand (C36): its number, written as `mark`
    Odd(u16),
    /// two operands side by side (C36)
    Beside(u16, Box<E>, Box<E>),
}
/// What C36 puts where something is wrong; never parsed.
pub fn mark(id: u16) -> char {
    char::from_u32(0xe000 + id as u32 % 6400).unwrap()
}
const BESIDE: Bind = (100, false);
const BESIDE_RIGHT: Bind = (100, true);

/// (rule, symbols)
pub fn atoms() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![
        ("Core::Variable", vec!["a"]),
        ("Core::Variable", vec!["b"]),
        ("Core::Variable", vec!["x", "2"]),
        ("Core::Variable", vec!["é", "y"]),
        ("Arithmetic::Number", vec!["7"]),
        ("Arithmetic::Number", vec!["4", "2"]),
        ("Arithmetic::Number", vec!["3", ".", "1", "4"]),
        ("Calculus::Infinity", vec!["∞"]),
        ("Logic::True", vec!["⊤"]),
        ("Logic::False", vec!["⊥"]),
        ("String::String", vec!["\"", "+", "(", "\""]),
    ]
}
fn simple_atoms() -> Vec<(&'static str, Vec<&'static str>)> {
    vec![("Core::Variable", vec!["a"]), ("Core::Variable", vec!["b"]), ("Core::Variable", vec!["c", "2"])]
}

pub fn expr(full: bool) -> BoxedStrategy<E> {
    let leaf = sel().prop_map(E::Atom);
    leaf.prop_recursive(if full { 6 } else { 7 }, 30, 3, move |e| {
        let scripts = prop_oneof![
            5 => Just(vec![]),
            1 => vec((any::<bool>(), e.clone()), 1..5),
        ]
        .prop_map(move |s| if full { s } else { vec![] });
        let b = |e: E| Box::new(e);
        let basic = prop_oneof![
            8 => (sel(), scripts.clone(), e.clone(), e.clone()).prop_map(move |(s, c, x, y)| E::Infix(s, c, b(x), b(y))),
            3 => (sel(), scripts, e.clone()).prop_map(move |(s, c, x)| E::Prefix(s, c, b(x))),
            2 => (sel(), e.clone()).prop_map(move |(s, x)| E::Postfix(s, b(x))),
        ];
        if !full {
            return basic.boxed();
        }
        prop_oneof![
            14 => basic,
            2 => (e.clone(), proptest::option::weighted(0.8, e.clone())).prop_map(move |(x, y)| E::Apply(b(x), y.map(b))),
            2 => (any::<bool>(), e.clone(), e.clone()).prop_map(move |(s, x, y)| E::Script(s, b(x), b(y))),
            1 => (e.clone(), e.clone()).prop_map(move |(x, y)| E::Frac(b(x), b(y))),
            1 => (e.clone(), e.clone()).prop_map(move |(x, y)| E::Root(b(x), b(y))),
            1 => (any::<bool>(), vec(e, 1..4)).prop_map(|(s, x)| E::Table(s, x)),
        ]
        .boxed()
    })
    .boxed()
}

/// How brackets are placed.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    /// only where the grouping needs them
    Minimal,
    /// around every operand
    Full,
}
pub struct Printer<'a> {
    pub table: &'a Table,
    pub style: Style,
    /// spaces before each token, cyclic; empty means none
    pub spaces: &'a [u8],
    at: usize,
    pub brackets: usize,
    pub spaced: usize,
}
impl<'a> Printer<'a> {
    pub fn new(table: &'a Table, style: Style, spaces: &'a [u8]) -> Self {
        Printer { table, style, spaces, at: 0, brackets: 0, spaced: 0 }
    }
    fn infix(&self, s: Sel) -> &'a Op {
        &self.table.infix[choose(s, self.table.infix.len())]
    }
    fn prefix(&self, s: Sel) -> &'a Op {
        &self.table.prefix[choose(s, self.table.prefix.len())]
    }
    fn postfix(&self, s: Sel) -> &'a Op {
        &self.table.postfix[choose(s, self.table.postfix.len())]
    }
    fn atom(&self, s: Sel) -> (&'static str, Vec<&'static str>) {
        let all = if self.table.apply.is_some() { atoms() } else { simple_atoms() };
        all[choose(s, all.len())].clone()
    }
    fn space(&mut self, out: &mut Vec<N>) {
        if self.spaces.is_empty() {
            return;
        }
        let n = self.spaces[self.at % self.spaces.len()];
        self.at += 1;
        for _ in 0..n {
            self.spaced += 1;
            out.push(N::s(" "));
        }
    }
    fn token(&mut self, symbols: &[impl AsRef<str>], out: &mut Vec<N>) {
        self.space(out);
        out.extend(symbols.iter().map(|s| N::s(s.as_ref())));
    }
    pub fn row(&mut self, e: &E) -> R {
        let mut out = vec![];
        self.expr(e, (0, false), (0, false), &mut out);
        self.space(&mut out);
        R(out)
    }
    fn scripts(&mut self, s: &Scripts, out: &mut Vec<N>) {
        for (sup, e) in s {
            self.space(out);
            let r = self.row(e);
            out.push(N::C(if *sup { Kind::Sup } else { Kind::Sub }, 1, vec![r]));
        }
    }
    /// `left`: how tightly the operator before binds to the right; `right`: how tightly the one behind binds
    /// to the left.
    fn expr(&mut self, e: &E, left: Bind, right: Bind, out: &mut Vec<N>) {
        let is_operand = left != (0, false) || right != (0, false);
        let needed = match e {
            E::Infix(s, ..) => {
                let op = self.infix(*s);
                op.left() < left || right >= op.right()
            }
            E::Beside(..) => BESIDE < left || right >= BESIDE_RIGHT,
            E::Prefix(s, ..) => right >= self.prefix(*s).right(),
            E::Postfix(s, _) => self.postfix(*s).left() < left,
            E::Apply(..) => (self.table.apply.unwrap(), true) < left,
            E::Script(..) => (SCRIPT, true) < left,
            _ => false,
        };
        let wanted = self.style == Style::Full && is_operand && !matches!(e, E::Atom(_) | E::Odd(_) | E::Frac(..) | E::Root(..) | E::Table(..));
        if needed || wanted {
            self.brackets += 1;
            self.token(&["("], out);
            self.bare(e, (0, false), (0, false), out);
            self.token(&[")"], out);
        } else {
            self.bare(e, left, right, out);
        }
    }
    fn bare(&mut self, e: &E, left: Bind, right: Bind, out: &mut Vec<N>) {
        match e {
            E::Atom(s) => {
                let (_, symbols) = self.atom(*s);
                self.token(&symbols, out);
            }
            E::Infix(s, scripts, x, y) => {
                let op = self.infix(*s);
                self.expr(x, left, op.left(), out);
                self.token(&op.symbols, out);
                self.scripts(scripts, out);
                self.expr(y, op.right(), right, out);
            }
            E::Odd(id) => self.token(&[mark(*id).to_string()], out),
            E::Beside(id, x, y) => {
                self.expr(x, left, BESIDE, out);
                self.token(&[mark(*id).to_string()], out);
                self.expr(y, BESIDE_RIGHT, right, out);
            }
            E::Prefix(s, scripts, x) => {
                let op = self.prefix(*s);
                self.token(&op.symbols, out);
                self.scripts(scripts, out);
                self.expr(x, op.right(), right, out);
            }
            E::Postfix(s, x) => {
                let op = self.postfix(*s);
                self.expr(x, left, op.left(), out);
                self.token(&op.symbols, out);
            }
            E::Apply(f, arg) => {
                self.expr(f, left, (self.table.apply.unwrap(), true), out);
                self.token(&["("], out);
                match arg {
                    Some(a) => {
                        self.expr(a, (0, false), (0, false), out);
                        self.token(&[")"], out);
                    }
                    None => out.push(N::s(")")),
                }
            }
            E::Script(sup, base, s) => {
                self.expr(base, left, (SCRIPT, true), out);
                self.scripts(&vec![(*sup, (**s).clone())], out);
            }
            E::Frac(x, y) => {
                self.space(out);
                let rows = vec![self.row(x), self.row(y)];
                out.push(N::C(Kind::Frac, 1, rows));
            }
            E::Root(x, y) => {
                self.space(out);
                let rows = vec![self.row(x), self.row(y)];
                out.push(N::C(Kind::Root, 2, rows));
            }
            E::Table(wide, cells) => {
                self.space(out);
                let rows: Vec<R> = cells.iter().map(|c| self.row(c)).collect();
                out.push(N::C(Kind::Table, if *wide { rows.len() } else { 1 }, rows));
            }
        }
    }

    /// The normal form the expression has to parse to.
    pub fn expected(&self, e: &E) -> String {
        let with_scripts = |op: &Op, scripts: &Scripts| {
            let mut s = format!("(BuiltIn::Operator {})", op.symbols.concat());
            for (sup, e) in scripts {
                s = script(*sup, &s, &self.expected(e));
            }
            s
        };
        fn script(sup: bool, base: &str, inner: &str) -> String {
            format!("(BuiltIn::{} {base} (BuiltIn::Operator 1x1 {inner}))", if sup { "Sup" } else { "Sub" })
        }
        match e {
            E::Atom(s) => {
                let (name, symbols) = self.atom(*s);
                format!("({name} {})", symbols.concat())
            }
            E::Infix(s, c, x, y) => {
                let op = self.infix(*s);
                format!("({} {} {} {})", op.name, self.expected(x), with_scripts(op, c), self.expected(y))
            }
            E::Odd(id) => mark(*id).to_string(),
            E::Beside(id, x, y) => format!("({} {} {} {})", mark(*id), self.expected(x), mark(*id), self.expected(y)),
            E::Prefix(s, c, x) => {
                let op = self.prefix(*s);
                format!("({} {} {})", op.name, with_scripts(op, c), self.expected(x))
            }
            E::Postfix(s, x) => {
                let op = self.postfix(*s);
                format!("({} {} (BuiltIn::Operator {}))", op.name, self.expected(x), op.symbols.concat())
            }
            E::Apply(f, a) => {
                let inner = match a {
                    Some(a) => format!("(BuiltIn::Operator (BuiltIn::Operator () {} (BuiltIn::Operator )))", self.expected(a)),
                    None => "(BuiltIn::Operator (BuiltIn::Operator () (BuiltIn::Operator )))".to_string(),
                };
                format!("(Function::FunctionApplication {} {inner})", self.expected(f))
            }
            E::Script(sup, base, s) => script(*sup, &self.expected(base), &self.expected(s)),
            E::Frac(x, y) => format!("(BuiltIn::Fraction 1x2 {} {})", self.expected(x), self.expected(y)),
            E::Root(x, y) => format!("(BuiltIn::Root 2x1 {} {})", self.expected(x), self.expected(y)),
            E::Table(wide, cells) => {
                let n = cells.len();
                let size = if *wide { format!("{n}x1") } else { format!("1x{n}") };
                let cells: Vec<String> = cells.iter().map(|c| self.expected(c)).collect();
                format!("(BuiltIn::Table {size} {})", cells.join(" "))
            }
        }
    }
}

/// Normal form of a parsed tree: without spaces and brackets that only group.
pub fn normal(t: &T) -> String {
    match &t.kids {
        Kids::Leaf(_, s) => format!("({} {})", t.name, s.concat()),
        Kids::Nodes(k) => {
            let k: Vec<&T> = k.iter().filter(|k| k.name != "BuiltIn::Whitespace").collect();
            if t.name == "BuiltIn::Whitespaces" && k.len() == 1 {
                return normal(k[0]);
            }
            if t.name == "Core::RoundBrackets" && k.len() == 3 {
                return normal(k[1]);
            }
            let k: Vec<String> = k.into_iter().map(normal).collect();
            format!("({} {})", t.name, k.join(" "))
        }
        Kids::Rows(w, k) => {
            let rows: Vec<String> = k.iter().map(normal).collect();
            format!("({} {w}x{} {})", t.name, k.len() / w, rows.join(" "))
        }
    }
}
