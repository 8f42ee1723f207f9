#!/usr/bin/env python3
"""Planted bugs in the web bindings."""
import shutil
import bugs_lang as L
from mkbug import bug, SEEDED
W = 'aftermath-core/web/src/'
DEMO = L.DEMO.replace('[workspace]', """wasm-bindgen = { path = "$here/bindgen" }
serde-wasm-bindgen = { path = "$here/serde" }
serde = { version = "1.0", features = ["derive"] }
log = "0.4"
[workspace]""").replace('cp "$here/main.rs" "$tmp/src/main.rs"', 'sed "s#CORE#$core#" "$here/main.rs" > "$tmp/src/main.rs"').replace(
 '# not available offline) and runs it.', '# not available offline) and runs it. The web bindings are called from Rust, with stand-ins for wasm-bindgen.')
PRE = L.PRE + '''#[path = "CORE/web/src/math_editor.rs"]
mod math_editor;
#[path = "CORE/web/src/math_parser.rs"]
mod math_parser;
use crate::math_editor::*;
use crate::math_parser::*;
use wasm_bindgen::JsValue;
fn web() -> MathEditorBindings {
    let mut m = ParseModulesBindings::new();
    let made = [ParseModulesCreator::make_core(&mut m), ParseModulesCreator::make_arithmetic(&mut m), ParseModulesCreator::make_calculus(&mut m), ParseModulesCreator::make_string(&mut m)];
    let mut c = ParseModuleCollectionBindings::new(&m);
    made.into_iter().for_each(|x| c.add_module(x));
    MathEditorBindings::new(&MathParserBindings::new(c))
}
fn typed(e: &mut MathEditorBindings, t: &str) {
    let v: Vec<String> = t.chars().map(|c| c.to_string()).collect();
    e.insert_at_caret(JsValue(serde_json::to_value(v).unwrap())).unwrap();
}
fn tree(e: &MathEditorBindings) -> String { e.get_input_tree().unwrap().0.to_string() }
'''
def t(id, edits, needs, breaks, main):
    bug(id, 'C34', [(W + p, a, b) for p, a, b in edits], needs, breaks, {'main.rs': PRE + main}, DEMO)
    d = f'{SEEDED}/{id}/'
    for x, y in (('chumsky', 'chumsky'), ('wasm/bindgen', 'bindgen'), ('wasm/bindgen_macro', 'bindgen_macro'), ('wasm/serde', 'serde')):
        shutil.rmtree(d + y, ignore_errors=True)
        shutil.copytree('/verif/harness/' + x, d + y, ignore=shutil.ignore_patterns('target', 'Cargo.lock'))
if __name__ == '__main__':
    t('web-01', [('math_editor.rs', 'input_match_length: rule_match.input_match_length,', 'input_match_length: rule_match.rule_match_length,')],
     'a completion over a symbol of several letters',
     'more of the formula is reported as its beginning than belongs to it',
     '''fn main() {
    let mut e = web();
    e.insert_at_caret(JsValue(serde_json::json!(["sq", "r"]))).unwrap();
    let a = e.get_autocomplete().unwrap().0;
    assert_eq!((&a["matches"][0]["rule_match_length"], &a["matches"][0]["input_match_length"]), (&serde_json::json!(3), &serde_json::json!(2)), "{a}");
}
''')
    t('web-02', [('math_editor.rs', """        let values: Vec<InputNode> = serde_wasm_bindgen::from_value(values)?;
        self.editor.splice_at_range(range, values);""", """        let values: Vec<InputNode> = serde_wasm_bindgen::from_value(values).unwrap_or_default();
        self.editor.splice_at_range(range, values);""")],
     'a splice of something which is no list of elements',
     'it is not refused and removes the elements of the range',
     '''fn main() {
    let mut e = web();
    typed(&mut e, "xyz");
    let before = tree(&e);
    let all = || MinimalInputRowRange { row_indices: ri(vec![]), start: Offset(0), end: Offset(3) };
    assert!(e.splice_at_range(all(), JsValue(serde_json::json!([{"Symbol": 1}]))).is_err());
    assert_eq!(tree(&e), before);
}
''')
    t('web-03', [('math_parser.rs', 'self.modules.push(module);', 'self.modules.insert(1, module);')],
     'modules whose rules compete for the same symbols',
     'the module added first wins',
     '''fn main() {
    // Both offer completions for the same beginning; the later module's are offered first.
    let words = |n: &str| BoxedParseModule::new(Rc::new(Words(vec![AutocompleteRule::new(n, vec![s("1")])])));
    let m = ParseModulesBindings::new();
    let mut c = ParseModuleCollectionBindings::new(&m);
    c.add_module(words("qab"));
    c.add_module(words("qac"));
    let mut e = MathEditorBindings::new(&MathParserBindings::new(c));
    typed(&mut e, "qa");
    let a = e.get_autocomplete().unwrap().0;
    assert_eq!(a["matches"][0]["rule"]["parser"], "qac", "{a}");
}
''')
