//! C34: the web bindings, called from Rust (see ../../wasm), against the editor they stand for.
#[path = "/repo/aftermath-core/web/src/math_editor.rs"]
mod math_editor;
#[path = "/repo/aftermath-core/web/src/math_parser.rs"]
mod math_parser;
#[allow(dead_code)]
#[path = "../../editor/src/ed.rs"]
mod ed;
mod c34;
fn main() {
    vcommon::runner::main(c34::checks())
}
