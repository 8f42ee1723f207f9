//! The Rust half of the editor behind a line protocol, in place of the WebAssembly module the web
//! component loads: one JSON request per line, one JSON answer per line.
use caret::math_editor::MathEditor;
use input_tree::node::InputNode;
use parser::{
    parse_module::ParseModule,
    parse_modules::{ParseModuleCollection, ParseModules},
    parser::MathParser,
    rule_collections::{
        arithmetic_rules::ArithmeticRules, built_in_rules::BuiltInRules, calculus_rules::CalculusRules,
        collections_rules::CollectionsRules, comparison_rules::ComparisonRules, core_rules::CoreRules,
        function_rules::FunctionRules, logic_rules::LogicRules, string_rules::StringRules,
    },
};
use serde::{de::DeserializeOwned, Deserialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

#[derive(Deserialize)]
#[serde(tag = "op")]
enum Request {
    /// Creates modules in this order and lists the names they have registered.
    Names { created: Vec<String> },
    /// An editor whose parser has the modules `added`, of those created.
    New { id: u32, created: Vec<String>, added: Vec<String> },
    Drop { id: u32 },
    Call { id: u32, name: String, args: Vec<Value> },
    Parse { row: Vec<InputNode> },
    /// Does this read back as a formula?
    Check { row: Value },
}

struct Modules {
    modules: ParseModules,
    built_in: Rc<BuiltInRules>,
    made: HashMap<String, Rc<dyn ParseModule>>,
}
fn modules(created: &[String]) -> Modules {
    let mut m = ParseModules::new();
    let built_in = Rc::new(BuiltInRules::new(&mut m));
    let mut made: HashMap<String, Rc<dyn ParseModule>> = HashMap::new();
    made.insert("BuiltIn".into(), built_in.clone());
    for c in created {
        let module: Rc<dyn ParseModule> = match c.as_str() {
            "BuiltIn" => continue,
            "Core" => Rc::new(CoreRules::new(&mut m, &built_in)),
            "Arithmetic" => Rc::new(ArithmeticRules::new(&mut m)),
            "Calculus" => Rc::new(CalculusRules::new(&mut m)),
            "Collections" => Rc::new(CollectionsRules::new(&mut m)),
            "Comparison" => Rc::new(ComparisonRules::new(&mut m)),
            "Function" => Rc::new(FunctionRules::new(&mut m, &built_in)),
            "Logic" => Rc::new(LogicRules::new(&mut m)),
            "String" => Rc::new(StringRules::new(&mut m)),
            _ => panic!("no module {c}"),
        };
        made.insert(c.clone(), module);
    }
    Modules { modules: m, built_in, made }
}

fn standard() -> Vec<String> {
    ["BuiltIn", "Core", "Arithmetic", "Calculus", "Collections", "Comparison", "Function", "Logic", "String"]
        .map(String::from)
        .to_vec()
}

#[derive(Default)]
struct Server {
    parsers: HashMap<(Vec<String>, Vec<String>), Rc<MathParser>>,
    editors: HashMap<u32, MathEditor>,
}

fn arg<T: DeserializeOwned>(args: &[Value], i: usize) -> Result<T, String> {
    serde_json::from_value(args.get(i).cloned().unwrap_or(Value::Null)).map_err(|e| format!("argument {i}: {e}"))
}
fn to(v: impl serde::Serialize) -> Value {
    serde_json::to_value(v).expect("serializable")
}

impl Server {
    fn parser(&mut self, created: Vec<String>, added: Vec<String>) -> Rc<MathParser> {
        self.parsers
            .entry((created.clone(), added.clone()))
            .or_insert_with(|| {
                let m = modules(&created);
                let added = added.iter().map(|a| m.made[a].clone()).collect();
                Rc::new(MathParser::new(ParseModuleCollection::new(m.built_in, added)))
            })
            .clone()
    }
    fn answer(&mut self, r: Request) -> Result<Value, String> {
        match r {
            Request::Names { created } => {
                let m = modules(&created);
                let map = m.modules.get_rule_name_map();
                Ok((0..).map_while(|i| {
                    let id = parser::syntax_tree::SyntaxNodeNameId::new(i);
                    map.get_reverse(id).map(|p| json!([p, id]))
                }).collect())
            }
            Request::New { id, created, added } => {
                let p = self.parser(created, added);
                self.editors.insert(id, MathEditor::new(p));
                Ok(Value::Null)
            }
            Request::Drop { id } => {
                self.editors.remove(&id);
                Ok(Value::Null)
            }
            Request::Parse { row } => {
                let p = self.parser(standard(), standard());
                Ok(to(p.parse(&row)))
            }
            Request::Check { row } => {
                serde_json::from_value::<Vec<InputNode>>(row).map_err(|e| e.to_string())?;
                Ok(Value::Null)
            }
            Request::Call { id, name, args } => {
                let e = self.editors.get_mut(&id).ok_or("no such editor")?;
                Ok(match name.as_str() {
                    "focus" => to(e.focus()),
                    "unfocus" => to(e.unfocus()),
                    "move_caret" => { e.move_caret(arg(&args, 0)?, arg(&args, 1)?); Value::Null }
                    "select_with_caret" => to(e.select_with_caret(arg(&args, 0)?, arg(&args, 1)?).is_some()),
                    "remove_at_caret" => to(e.remove_at_caret(arg(&args, 0)?, arg(&args, 1)?).is_some()),
                    "insert_at_caret" => { e.insert_at_caret(arg::<Vec<String>>(&args, 0)?); Value::Null }
                    "select_all" => { e.select_all(); Value::Null }
                    "undo" => to(e.undo().is_some()),
                    "redo" => to(e.redo().is_some()),
                    "start_selection" => { e.start_selection(arg(&args, 0)?, arg(&args, 1)?); Value::Null }
                    "extend_selection" => { e.extend_selection(arg(&args, 0)?); Value::Null }
                    "finish_selection" => { e.finish_selection(); Value::Null }
                    "copy" => to(e.copy(arg(&args, 0)?).map_err(|e| e.to_string())?),
                    "paste" => { e.paste(arg(&args, 0)?, arg(&args, 1)?).map_err(|e| e.to_string())?; Value::Null }
                    "open_autocomplete" => to(e.open_autocomplete().is_some()),
                    "finish_autocomplete" => to(e.finish_autocomplete(arg(&args, 0)?).is_some()),
                    "move_in_autocomplete" => to(e.move_in_autocomplete(arg(&args, 0)?).is_some()),
                    "get_caret" => to(e.get_caret()),
                    "get_input_tree" => to(e.get_input_tree()),
                    "get_syntax_tree" => to(e.get_syntax_tree()),
                    "splice_at_range" => { e.splice_at_range(arg(&args, 0)?, arg(&args, 1)?); Value::Null }
                    _ => return Err(format!("no method {name}")),
                })
            }
        }
    }
}

thread_local! {
    static PANIC: RefCell<String> = RefCell::default();
}

fn serve() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned()
            .or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("crash: {m} (at {at})"));
    }));
    let mut server = Server::default();
    let stdout = std::io::stdout();
    for line in std::io::stdin().lock().lines() {
        let Ok(line) = line else { return };
        let answer = match serde_json::from_str::<Request>(&line) {
            Err(e) => json!({"err": format!("bad request: {e}")}),
            Ok(r) => match catch_unwind(AssertUnwindSafe(|| server.answer(r))) {
                Ok(Ok(v)) => json!({"ok": v}),
                Ok(Err(e)) => json!({"err": e}),
                Err(_) => json!({"panic": PANIC.with(|p| p.borrow().clone())}),
            },
        };
        let mut out = stdout.lock();
        if writeln!(out, "{answer}").and_then(|_| out.flush()).is_err() {
            return;
        }
    }
}

fn main() {
    std::thread::Builder::new().stack_size(512 << 20).spawn(serve).unwrap().join().unwrap();
}
