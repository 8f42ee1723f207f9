#!/usr/bin/env python3
"""Planted bugs in the TypeScript half."""
from mkbug import bug, SEEDED
M = 'src/mathml/'
DEMO = '''#!/bin/bash
# Bundles demo.ts with the sources of the current directory and runs it with a simulated document.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/build.cjs" <<T
const modules = "/opt/veriftools/node/node_modules";
const plugin = { name: "editor", setup(b) {
  b.onResolve({ filter: /aftermath-core\\\\/pkg$/ }, () => ({ path: "$here/pkg.ts" }));
  b.onResolve({ filter: /^repo\\\\// }, (a) => ({ path: "$repo/src/" + a.path.slice(5) + ".ts" }));
  b.onResolve({ filter: /\\\\.css(\\\\?inline)?$/ }, (a) => ({ path: a.path, namespace: "css" }));
  b.onResolve({ filter: /^lil-gui$/ }, (a) => ({ path: a.path, namespace: "gui" }));
  b.onLoad({ filter: /.*/, namespace: "gui" }, () => ({ contents: 'const panel = new Proxy(function () {}, { get: () => panel, apply: () => panel, construct: () => panel }); export { panel as default, panel as GUI };', loader: "js" }));
  b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: 'export default "";', loader: "js" }));
} };
require(modules + "/esbuild").build({ entryPoints: ["$here/demo.ts"], outfile: "$tmp/demo.mjs", bundle: true, platform: "node",
  format: "esm", target: "es2022", nodePaths: [modules], define: { "import.meta.env": '{"DEV":true,"PROD":false}' },
  tsconfigRaw: { compilerOptions: { target: "ES2022", useDefineForClassFields: true } }, plugins: [plugin], logLevel: "error" }).catch(() => process.exit(1));
T
node "$tmp/build.cjs" && timeout 120 node "$tmp/demo.mjs" 2>&1
'''
PKG = '''// Takes the place of the WebAssembly module: an editor that shows a given formula and records what is asked of it.
export const NAMES = ["BuiltIn::Nothing", "BuiltIn::Whitespace", "BuiltIn::Whitespaces", "BuiltIn::Operator", "BuiltIn::Fraction", "BuiltIn::Sup", "BuiltIn::Sub", "BuiltIn::Root",
  "BuiltIn::Table", "Error::MissingToken", "Error::UnknownToken", "Error::MissingOperator", "Core::Variable", "Core::RoundBrackets", "Arithmetic::Number", "Arithmetic::Add"];
export default async function init() {}
export class ParseModulesBindings {
  get_built_in() { return {}; }
  get_syntax_node_name_map() { return { values: new Map(NAMES.map((n, i) => [n.split("::"), i])) }; }
}
const make = () => ({});
export const ParseModulesCreator = { make_core: make, make_arithmetic: make, make_calculus: make, make_collections: make, make_comparison: make, make_function: make, make_logic: make, make_string: make };
export class ParseModuleCollectionBindings { add_module() {} }
export class MathParserBindings {}
export type Tree = { name: number; range: { start: number; end: number }; value: never[]; children: any };
export const id = (name: string) => NAMES.indexOf(name);
export const leaf = (name: string, start: number, text: string): Tree => ({ name: id(name), range: { start, end: start + [...text].length }, value: [], children: { Leaf: { node_type: "Symbol", symbols: [...text] } } });
export const node = (name: string, ...c: Tree[]): Tree => ({ name: id(name), range: { start: c[0].range.start, end: c[c.length - 1].range.end }, value: [], children: { Children: c } });
export const rows = (name: string, at: number, width: number, ...values: Tree[]): Tree => ({ name: id(name), range: { start: at, end: at + 1 }, value: [], children: { NewRows: { values, width } } });
export const shown: { tree: Tree; carets: any[]; calls: any[][] } = { tree: leaf("Core::Variable", 0, "abc"), carets: [], calls: [] };
export class MathEditorBindings {
  get_syntax_tree() { return shown.tree; }
  get_input_tree() { return { values: [] }; }
  get_caret() { return shown.carets; }
  get_autocomplete() { return undefined; }
  copy() { return "copied"; }
}
for (const m of ["move_caret", "remove_at_caret", "insert_at_caret", "undo", "redo", "start_selection", "extend_selection", "finish_selection", "paste", "splice_at_range"])
  (MathEditorBindings.prototype as any)[m] = (...a: any[]) => { shown.calls.push([m, ...a]); };
'''
DOM = open(SEEDED + '/../ts/src/dom.ts').read()
HEAD = '''import assert from "node:assert";
import { FElement, fakeDocument, install, setLayout, timers } from "./dom";
import { NAMES, leaf, node, rows, shown, type Tree } from "./pkg";
install();
console.log = console.warn = () => {};
const L = { x: 0, y: 0, fontSize: 16, outX: 0, outY: 0, widths: [8] };
'''
DRAW = '''const { MathMLRenderer } = await import("repo/mathml/renderer");
const { RowIndices } = await import("repo/input-tree/row-indices");
function draw(t: Tree) {
  setLayout(L);
  const result = new MathMLRenderer(new Map(NAMES.map((n, i) => [n, i]))).renderAll({ errors: null, value: t as any });
  const math = fakeDocument.createElement("math");
  math.append(...(result.getElement(RowIndices.default()).getElements() as any));
  fakeDocument.body.replaceChildren(math);
  return result;
}
const at = (...path: [number, number][]) => new RowIndices(path as any);
const text = (e: any): string => e.getElements().map((x: any) => x.textContent).join("");
'''
IMPORT = '''const { fromElement } = await import("repo/mathml/parsing");
const { htmlToElement } = await import("repo/utils/dom-utils");
const read = (m: string) => fromElement(htmlToElement(m) as any);
const row = (v: any): string => v.values.map((n: any) => ("Symbol" in n ? n.Symbol : `${n.Container[0]}${n.Container[1].width}(${n.Container[1].values.map(row).join("|")})`)).join("");
'''
def t(id, prop, edits, needs, breaks, main):
    bug(id, prop, edits, needs, breaks, {'demo.ts': HEAD + main, 'pkg.ts': PKG, 'dom.ts': DOM}, DEMO)

t('ts-01', 'C24', [(M + 'parsing.ts', 'children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0)', '(children.at(0)?.children.length ?? 0)')],
 'a table whose first line is shorter than a later one',
 'the last cells of the longer lines are lost',
 IMPORT + '''const r = read("<math><mtable><mtr><mtd><mi>a</mi></mtd></mtr><mtr><mtd><mi>b</mi></mtd><mtd><mi>c</mi></mtd></mtr></mtable></math>");
assert.equal(row(r.root), "Table2(a||b|c)");
''')
t('ts-02', 'C24', [(M + 'parsing.ts', 'return Array.from(intlSegmenter.segment(text), ({ segment }) => segment);', 'return [...text].length === text.length ? [...text] : Array.from(intlSegmenter.segment(text), ({ segment }) => segment);')],
 'a letter written with combining marks, without any character outside of the basic plane',
 'the letter and its marks become separate symbols',
 IMPORT + '''const r = read("<math><mi>a\\u0323\\u0301b</mi></math>");
assert.equal((r.root.values as any[]).length, 2);
''')
t('ts-03', 'C25', [(M + 'render-result.ts', 'childElement.syntaxTree.range.start <= indexOfContainer && indexOfContainer < childElement.syntaxTree.range.end', 'childElement.syntaxTree.range.start <= indexOfContainer && indexOfContainer <= childElement.syntaxTree.range.end')],
 'an element that directly follows another element with rows of its own (a root behind a fraction)',
 "the element's rows are looked up in its left neighbour",
 DRAW + '''const v = (s: string) => leaf("Core::Variable", 0, s);
const t = node("Error::MissingOperator", rows("BuiltIn::Fraction", 0, 1, v("a"), v("b")), rows("BuiltIn::Root", 1, 2, v("c"), v("d")));
const r = draw(t);
assert.equal(text(r.getElement(at([0, 1]))), "b");
assert.equal(text(r.getElement(at([1, 0]))), "c");
assert.equal(text(r.getElement(at([1, 1]))), "d");
''')
t('ts-04', 'C25', [(M + 'renderer/rendered-root-element.ts', '        .slice()\n        .reverse()\n', '        .slice()\n        .sort((a, b) => b.syntaxTree.range.end - a.syntaxTree.range.end)\n')],
 'a root whose index is longer than its content',
 'index and content change places in the drawing',
 DRAW + '''const v = (s: string) => leaf("Core::Variable", 0, s);
const r = draw(rows("BuiltIn::Root", 0, 2, v("mn"), v("x")));
const e = r.getElement(at()).getElements() as any as FElement[];
assert.equal(e.map((x) => x.textContent).join(""), "xmn");
''')
t('ts-05', 'C26', [(M + 'render-result.ts', 'roots.push({ element: v, indices: indices.addRowIndex(v.rowIndex) });', 'roots.push({ element: v, indices: startingElement.indices.addRowIndex(v.rowIndex) });')],
 'a click whose nearest place lies at least two levels below the innermost drawn part that contains the click (e.g. a click beside a formula that ends in nested elements)',
 'the reported position has a wrong address',
 DRAW + '''const v = (s: string) => leaf("Core::Variable", 0, s);
const inner = rows("BuiltIn::Fraction", 0, 1, v("p"), v("q"));
const r = draw(rows("BuiltIn::Fraction", 0, 1, inner, v("b")));
for (const path of [[[0, 0]], [[0, 1]], [[0, 0], [0, 0]], [[0, 0], [0, 1]]] as [number, number][][])
  for (let x = -40; x < 60; x += 3) for (let y = -40; y < 90; y += 3) {
    const p = r.getLayoutPosition({ x, y });
    const e = r.getElement(p.indices); // exists
    assert.ok(p.offset <= e.syntaxTree.range.end);
    // The place that was found is the nearest one of all.
    const there = e.getCaretPosition(p.offset), here = r.getElement(at(...path)).getCaretPosition(0);
    const d = (q: { x: number; y: number }) => Math.hypot(q.x - x, q.y - y);
    if (x < -1) assert.ok(d(there) <= d(here) + 1e-6, `${x} ${y}`);
  }
''')
t('ts-06', 'C26', [(M + 'render-result.ts', 'x: isForwards ? start.x : end.x,', 'x: Math.max(start.x, 0),'), ],
 'a selection made backwards (or drawn left of the window)',
 'the selection is drawn beginning at its right end',
 DRAW + '''const r = draw(leaf("Core::Variable", 0, "abcd"));
const a = r.getViewportSelection({ indices: at(), start: 1, end: 3 }).rect;
const b = r.getViewportSelection({ indices: at(), start: 3, end: 1 }).rect;
assert.deepEqual([b.x, b.width], [a.x, a.width]);
''')
t('ts-07', 'C28', [('src/rendering/viewport-coordinate.ts', 't = Math.max(0, Math.min(1, t));', 't = Math.min(1, Math.abs(t));')],
 'a point that lies beyond the first end of a segment',
 'the distance is measured to a mirrored point of the segment',
 '''const { ViewportMath } = await import("repo/rendering/viewport-coordinate");
assert.equal(ViewportMath.distanceToSegment({ x: -3, y: 4 }, { a: { x: 0, y: 0 }, b: { x: 10, y: 0 } }), 5);
''')
EL = '''const { MathEditor } = await import("repo/component/math-editor");
fakeDocument.querySelectorAll = () => [] as any;
(globalThis as any).customElements.define("math-editor", MathEditor);
setLayout(L);
const el: any = fakeDocument.createElement("math-editor");
fakeDocument.body.append(el);
const run = () => { while (timers.length) timers.shift()!(); };
const under = (e: any): any[] => [e, ...(e.shadowRoot ? under(e.shadowRoot) : []), ...[...e.children].flatMap(under)];
'''
t('ts-08', 'C30', [('src/component/math-editor.ts', 'ev.inputType === "deleteContentForward" || ev.inputType === "deleteWordForward"', 'ev.inputType === "deleteContentForward"')],
 'deleting a word forwards (Ctrl+Delete)',
 'nothing happens',
 EL + '''const input = el.inputHandler.element;
shown.calls.length = 0;
for (const inputType of ["deleteContentBackward", "deleteWordBackward", "deleteContentForward", "deleteWordForward"]) {
  input.dispatch("beforeinput", { inputType, data: null }); run();
}
assert.deepEqual(shown.calls.map((c) => c[1]), ["Left", "Left", "Right", "Right"]);
''')
t('ts-09', 'C30', [('src/component/math-editor.ts', 'x: renderedCaret.rect.x + (isForwards ? renderedCaret.rect.width : 0),', 'x: renderedCaret.rect.x + renderedCaret.rect.width,')],
 'a selection made backwards',
 'the caret is drawn at the wrong end of the selection',
 EL + '''const left = (start: number, end: number) => {
  shown.carets = [{ Row: { row_indices: [], start, end } }];
  el.updateInput();
  const c = under(el.caretsContainer).map((x: any) => x.style?.left).filter((x: any) => x);
  return c.map((x: string) => parseFloat(x))[0];
};
assert.ok(left(0, 2) > left(2, 0));
assert.equal(left(2, 0), left(0, 0));
''')
t('ts-10', 'C33', [('src/component/math-editor.ts', """    let isPointerDown = false;

    container.addEventListener("pointerdown\"""", """    container.addEventListener("pointerdown\""""),
  ('src/component/math-editor.ts', "export class MathEditor extends HTMLElement {", "let isPointerDown = false;\n\nexport class MathEditor extends HTMLElement {")],
 'a pointer that passes over another editor while the button is held',
 "the other editor's selection follows it",
 EL + '''const other: any = fakeDocument.createElement("math-editor");
fakeDocument.body.append(other);
const surface = (e: any) => under(e).find((x: any) => x.tagName?.toLowerCase() === "math").parentElement;
const at = (e: any) => { const r = surface(e).getBoundingClientRect(); return { isPrimary: true, pointerId: 1, clientX: r.x + 1, clientY: r.y + 1, detail: 1 }; };
const does = (f: () => void) => { shown.calls.length = 0; f(); run(); return shown.calls.map((c) => c[0]); };
assert.deepEqual(does(() => surface(el).dispatch("pointerdown", at(el))), ["start_selection"]);
assert.deepEqual(does(() => surface(el).dispatch("pointermove", at(el))), ["extend_selection"]);
assert.deepEqual(does(() => surface(other).dispatch("pointermove", at(other))), []);
''')
t('ts-11', 'C33', [('src/main.ts', '  el.replaceWith(editor);', '  el.parentElement?.append(editor);\n  el.remove();')],
 'a formula that is followed by something else',
 'its editor stands behind what followed the formula',
 '''const body = fakeDocument.body;
const math = (t: string) => { const m = fakeDocument.createElement("math"); m.setAttribute("data-editor", ""); const i = fakeDocument.createElement("mi"); i.append(t as any); m.append(i); return m; };
const p = fakeDocument.createElement("p");
body.append(p, math("a"));
p.append("x" as any, math("b"), "y" as any, math("c"));
await import("repo/main");
const kind = (e: any) => [...e.childNodes].map((c: any) => (c.tagName ?? c.textContent).toLowerCase());
assert.deepEqual(kind(p), ["x", "math-editor", "y", "math-editor"]);
assert.deepEqual(kind(body), ["p", "math-editor"]);
''')
t('ts-12', 'C24', [(M + 'parsing.ts', 'Symbol: value.normalize("NFD"),', 'Symbol: value.normalize("NFKD"),')],
 'a symbol with a compatibility decomposition (a superscript digit, a ligature, a double-struck letter)',
 'it is replaced by a plainer one, so x² becomes x2',
 IMPORT + '''assert.equal(row(read("<math><mi>x\\u00b2</mi><mo>\\u2102</mo></math>").root), "x\\u00b2\\u2102");
''')
t('ts-13', 'C24', [(M + 'parsing.ts', '[...c.children].every((cc) => tagIs(cc, "mtd"))', '[...c.children].some((cc) => tagIs(cc, "mtd"))')],
 'a table line with both cells and something else',
 'no error is reported and what is no cell becomes one',
 IMPORT + '''const r = read("<math><mtable><mtr><mtd><mi>a</mi></mtd><mi>b</mi></mtr></mtable></math>");
assert.equal(r.errors.length, 1);
assert.equal(row(r.root), "Error");
''')
t('ts-14', 'C25', [(M + 'renderer.ts', 'return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "mrow", this, options);', 'return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "mrow", this);')],
 'spaces between a base and its superscript or subscript',
 'the formula cannot be drawn',
 DRAW + '''const v = (s: string, i = 0) => leaf("Core::Variable", i, s);
const spaced = node("BuiltIn::Whitespaces", leaf("BuiltIn::Whitespace", 1, " "), rows("BuiltIn::Operator", 2, 1, v("2")));
const r = draw(node("BuiltIn::Sup", v("x"), spaced));
assert.equal(text(r.getElement(at([2, 0]))), "2");
''')
t('ts-15', 'C26', [(M + 'render-result.ts', 'if (newClosest.distance < closest.distance) {', 'if (newClosest.distance <= closest.distance + 1) {')],
 'a click that is only slightly nearer to a place in the surrounding row than to one inside an element',
 'the place inside the element is chosen',
 DRAW + '''const v = (s: string, i = 0) => leaf("Core::Variable", i, s);
const r = draw(node("Error::MissingOperator", v("x"), rows("BuiltIn::Fraction", 1, 1, v("a"), v("b")), v("y", 2)));
const ps: { x: number; y: number }[] = [];
for (const [i, n] of [[at(), 3], [at([1, 0]), 1], [at([1, 1]), 1]] as any) for (let o = 0; o <= n; o++) ps.push(r.getElement(i).getCaretPosition(o));
for (let x = -60; x < 90; x += 0.5) for (let y = -200; y < -40; y += 10) { // above everything that is drawn
  const p = r.getLayoutPosition({ x, y });
  const q = r.getElement(p.indices).getCaretPosition(p.offset);
  const d = (c: any) => Math.hypot(c.x - x, c.y - y);
  assert.ok(ps.every((c) => d(q) <= d(c) + 1e-6), `${x} ${y}`);
}
''')
t('ts-16', 'C28', [('src/rendering/viewport-coordinate.ts', 'const EPSILON = 0.00001;', 'const EPSILON = 0.01;')],
 'a segment of less than a tenth of a pixel',
 'it counts as a single point',
 '''const { ViewportMath } = await import("repo/rendering/viewport-coordinate");
assert.equal(ViewportMath.distanceToSegment({ x: 1, y: 0 }, { a: { x: 0, y: 0 }, b: { x: 0.0625, y: 0 } }), 1 - 0.0625);
''')
t('ts-17', 'C30', [('src/component/math-editor.ts', 'const task = this.tasks.shift()!;', 'const task = this.tasks.pop()!;')],
 'two inputs before the page gets to carry them out',
 'they are carried out in the wrong order',
 EL + '''const input = el.inputHandler.element;
shown.calls.length = 0;
for (const data of ["a", "b"]) input.dispatch("beforeinput", { inputType: "insertText", data });
run();
assert.deepEqual(shown.calls.map((c) => c[1]), [["a"], ["b"]]);
''')
t('ts-18', 'C30', [('src/component/math-editor.ts', """    container.addEventListener("pointercancel", (e) => {
      if (!e.isPrimary) return;
      isPointerDown = false;
""", """    container.addEventListener("pointercancel", (e) => {
      if (!e.isPrimary) return;
""")],
 'a press that is cancelled (the browser takes the touch over), then the pointer moves',
 'the selection goes on following the pointer',
 EL + '''const surface = under(el).find((x: any) => x.tagName?.toLowerCase() === "math").parentElement;
const r = surface.getBoundingClientRect();
const p = { isPrimary: true, pointerId: 1, clientX: r.x + 1, clientY: r.y + 1, detail: 1 };
surface.dispatch("pointerdown", p); surface.dispatch("pointercancel", p);
shown.calls.length = 0;
surface.dispatch("pointermove", p); run();
assert.deepEqual(shown.calls, []);
''')
t('ts-19', 'C30', [('src/component/math-editor.ts', 'const characters = unicodeSplit(data);', 'const characters = [...data];')],
 'typing or dictating a letter with a combining mark, or an emoji of several characters',
 'its parts become separate symbols',
 EL + '''const input = el.inputHandler.element;
shown.calls.length = 0;
input.dispatch("beforeinput", { inputType: "insertText", data: "xe\\u0301y" }); run();
assert.deepEqual(shown.calls.map((c) => c[1]), [["x", "e\\u0301", "y"]]);
''')
t('ts-20', 'C33', [('src/component/math-editor.ts', '  renderTaskQueue = new RenderTaskQueue();', '  static shared = new Set<() => void>();\n  renderTaskQueue = { add: (task: () => void) => {\n    MathEditor.shared.clear();\n    MathEditor.shared.add(task);\n    setTimeout(() => {\n      const tasks = [...MathEditor.shared];\n      MathEditor.shared.clear();\n      tasks.forEach((t) => t());\n    }, 0);\n  } };')],
 'typing in two editors before the page gets to carry it out',
 'what was typed in the first one is lost',
 EL + '''const other: any = fakeDocument.createElement("math-editor");
fakeDocument.body.append(other);
shown.calls.length = 0;
el.inputHandler.element.dispatch("beforeinput", { inputType: "insertText", data: "a" });
other.inputHandler.element.dispatch("beforeinput", { inputType: "insertText", data: "b" });
run();
assert.deepEqual(shown.calls.map((c) => c[1]), [["a"], ["b"]]);
''')
t('ts-21', 'C26', [(M + 'render-result.ts', 'if (ViewportMath.distanceToRectangle(position, element.getBounds()) > 0) {', 'if (ViewportMath.distanceToRectangle(position, element.getBounds()) > 3) {')],
 'a click just beside one of two drawn parts that lie next to each other',
 'the place is looked for in the neighbour of the part that was clicked',
 DRAW + '''const v = (s: string, i = 0) => leaf("Core::Variable", i, s);
const r = draw(node("Error::MissingOperator", rows("BuiltIn::Fraction", 0, 1, v("aaaa"), v("b")), v("y", 1)));
// Just behind the left edge of y: the nearest place of y is the one in front of it.
const c = r.getElement(at()).getChildren()[1].getBounds();
const p = r.getLayoutPosition({ x: c.x + 1, y: c.y + c.height / 2 });
assert.deepEqual([p.indices.indices.length, p.offset], [0, 1]);
''')
t('ts-22', 'C25', [(M + 'renderer/rendered-table-element.ts', 'const tableRow = tableCells.slice(i, i + tableWidth);', 'const tableRow = tableCells.slice(i, i + tableWidth).sort((a, b) => a.syntaxTree.range.start - b.syntaxTree.range.start || (a.rowIndex?.toString() ?? "").localeCompare(b.rowIndex?.toString() ?? ""));')],
 'a table with a line that reaches from cell 9 to cell 10',
 'cell 10 is drawn in front of cell 9',
 DRAW + '''const v = (s: string) => leaf("Core::Variable", 0, s);
const r = draw(rows("BuiltIn::Table", 0, 12, ..."abcdefghijkl".split("").map(v)));
assert.equal(text(r.getElement(at())), "abcdefghijkl");
''')
t('ts-23', 'C26', [(M + 'renderer/rendered-leaf.ts', 'y: graphemeBounds.bottom,\n    };\n  }\n\n  getElements', 'y: offset > this.range.start + 1 ? graphemeBounds.y : graphemeBounds.bottom,\n    };\n  }\n\n  getElements')],
 'a caret behind the second or a later symbol of a number, name or text',
 'the caret stands at the top of the symbols instead of at their bottom',
 DRAW + '''const r = draw(leaf("Core::Variable", 0, "abc"));
const ys = [0, 1, 2, 3].map((i) => r.getElement(at()).getCaretPosition(i).y);
assert.equal(new Set(ys).size, 1);
''')
t('ts-24', 'C30', [('src/component/math-editor.ts', """      ev.preventDefault();
      this.mathEditor.remove_at_caret("Range", "Char");""", """      this.mathEditor.remove_at_caret("Range", "Char");""")],
 'cutting (copying is fine)',
 'the browser goes on and overwrites what was put into the clipboard',
 EL + '''let prevented = 0;
for (const type of ["copy", "cut"])
  el.inputHandler.element.dispatch(type, { clipboardData: { setData() {}, getData: () => "" }, preventDefault() { prevented++; } });
assert.equal(prevented, 2);
''')
t('ts-25', 'C30', [('src/component/math-editor.ts', '      container.setPointerCapture(e.pointerId);', '      if (e.pointerType !== "mouse") container.setPointerCapture(e.pointerId);')],
 'selecting with the mouse by dragging out of the editor',
 'the editor no longer hears of the mouse: the selection stays where it was, and when the button is let go outside, it goes on afterwards',
 EL + '''const surface = under(el).find((x: any) => x.tagName?.toLowerCase() === "math").parentElement;
const r = surface.getBoundingClientRect();
let captured = 0;
surface.setPointerCapture = () => void captured++;
for (const pointerType of ["mouse", "touch"]) {
  const p = { isPrimary: true, pointerId: 1, pointerType, clientX: r.x + 1, clientY: r.y + 1, detail: 1 };
  surface.dispatch("pointerdown", p); surface.dispatch("pointerup", p);
}
assert.equal(captured, 2);
''')
t('ts-26', 'C25', [(M + 'renderer/rendered-root-element.ts', """        .slice()
        .reverse()
""", """        .slice()
        .sort((a, b) => Number(b.getElements().length > 1 || b.syntaxTree.range.end > 0) - Number(a.getElements().length > 1 || a.syntaxTree.range.end > 0) || (b.rowIndex?.[1] ?? 0) - (a.rowIndex?.[1] ?? 0))
""")],
 'a root with an index and nothing under it',
 'the index is drawn under the root, and the empty place in front of it',
 DRAW + '''const v = (s: string) => leaf("Core::Variable", 0, s);
const r = draw(rows("BuiltIn::Root", 0, 2, v("n"), { name: leaf("BuiltIn::Nothing", 0, "").name, range: { start: 0, end: 0 }, children: { Children: [] }, value: [] } as any));
const under = (e: any): any[] => [e, ...[...e.children].flatMap(under)];
const root = r.getElement(at()).getElements().flatMap(under).find((e: any) => e.localName === "mroot");
assert.deepEqual([...root.children].map((e: any) => e.textContent.includes("n")), [false, true]);
''')
t('ts-27', 'C25', [(M + 'renderer.ts', 'SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {', 'SimpleContainerMathMLElement(syntaxTree, rowIndex, syntaxTree.children.Children[0].name === this.nameMap.get("BuiltIn::Sup") ? "msup" : "msub", this, {')],
 'a subscript behind a superscript',
 'it is drawn as a second superscript',
 DRAW + '''const v = (i: number, s: string) => leaf("Core::Variable", i, s);
const r = draw(node("BuiltIn::Sub", node("BuiltIn::Sup", v(0, "a"), rows("BuiltIn::Operator", 1, 1, v(0, "2"))), rows("BuiltIn::Operator", 2, 1, v(0, "i"))));
const under = (e: any): any[] => [e, ...[...e.children].flatMap(under)];
const all = r.getElement(at()).getElements().flatMap(under).map((e: any) => e.localName);
assert.deepEqual([all.filter((x: string) => x === "msup").length, all.filter((x: string) => x === "msub").length], [1, 1]);
''')
