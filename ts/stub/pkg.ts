// Takes the place of the WebAssembly module (aftermath-core/pkg), which cannot be built offline: the same
// interface, answered by the native build of the same Rust code.
import { request } from "../src/server";

export default async function init() {}

export class BoxedParseModule {
  constructor(public name: string) {}
}
export class ParseModulesBindings {
  created: string[] = [];
  get_built_in() {
    return new BoxedParseModule("BuiltIn");
  }
  get_syntax_node_name_map() {
    return { values: new Map(request({ op: "Names", created: this.created })) };
  }
}
const make = (name: string) => (modules: ParseModulesBindings) => {
  modules.created.push(name);
  return new BoxedParseModule(name);
};
export const ParseModulesCreator = {
  make_core: make("Core"),
  make_arithmetic: make("Arithmetic"),
  make_calculus: make("Calculus"),
  make_collections: make("Collections"),
  make_comparison: make("Comparison"),
  make_function: make("Function"),
  make_logic: make("Logic"),
  make_string: make("String"),
};
export class ParseModuleCollectionBindings {
  added: string[] = ["BuiltIn"];
  constructor(public modules: ParseModulesBindings) {}
  add_module(m: BoxedParseModule) {
    this.added.push(m.name);
  }
}
export class MathParserBindings {
  created: string[];
  added: string[];
  constructor(c: ParseModuleCollectionBindings) {
    this.created = [...c.modules.created];
    this.added = [...c.added];
  }
}

let editors = 0;
export class MathEditorBindings {
  id = editors++;
  constructor(parser: MathParserBindings) {
    request({ op: "New", id: this.id, created: parser.created, added: parser.added });
  }
  free() {
    request({ op: "Drop", id: this.id });
  }
  call(name: string, ...args: unknown[]): any {
    return request({ op: "Call", id: this.id, name, args });
  }
  focus() { return this.call("focus"); }
  unfocus() { return this.call("unfocus"); }
  move_caret(d: string, m: string) { return this.call("move_caret", d, m); }
  select_with_caret(d: string, m: string) { return this.call("select_with_caret", d, m); }
  remove_at_caret(d: string, m: string) { return this.call("remove_at_caret", d, m); }
  insert_at_caret(v: string[]) { return this.call("insert_at_caret", v); }
  select_all() { return this.call("select_all"); }
  undo() { return this.call("undo"); }
  redo() { return this.call("redo"); }
  start_selection(p: unknown, m: string) { return this.call("start_selection", p, m); }
  extend_selection(p: unknown) { return this.call("extend_selection", p); }
  finish_selection() { return this.call("finish_selection"); }
  copy(t: string) { return this.call("copy", t); }
  paste(d: string, t?: string) { return this.call("paste", d, t ?? null); }
  open_autocomplete() { return this.call("open_autocomplete"); }
  finish_autocomplete(a: boolean) { return this.call("finish_autocomplete", a); }
  move_in_autocomplete(d: string) { return this.call("move_in_autocomplete", d); }
  get_caret() { return this.call("get_caret"); }
  get_input_tree() { return this.call("get_input_tree"); }
  get_syntax_tree() { return this.call("get_syntax_tree"); }
  splice_at_range(r: unknown, v: unknown) { return this.call("splice_at_range", r, v); }
}
