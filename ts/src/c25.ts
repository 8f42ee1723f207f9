// C25: every syntax tree renders, and rows can be found again in the rendering.
import fc from "fast-check";
import { getNodeWithRowIndices, ModulesCreator, MathModules, type SyntaxNode } from "repo/core/index";
import { RowIndices } from "repo/input-tree/row-indices";
import { joinPathIdentifier, MathMLRenderer } from "repo/mathml/renderer";
import type { RenderedElement } from "repo/rendering/render-result";
import { FElement, fakeDocument, type FNode } from "./dom";
import { allRows, containerOf, elementsUnder, formulaArb, glyphs, hasKind, isSymbol, rowAt, samePath, show, size, textNodes, type Path, type Row } from "./formula";
import { must, part, type Check, type Obs } from "./runner";
import { request } from "./server";

// The modules are created in order when the core is loaded.
void MathModules;
let nameList: [string[], number][] | null = null;
export const names = () => (nameList ??= [...ModulesCreator.get_syntax_node_name_map().values] as [string[], number][]);
export const newRenderer = () => new MathMLRenderer(new Map(names().map(([k, v]) => [joinPathIdentifier(k as any), v as any])));
let shared: MathMLRenderer | null = null;
export const renderer = () => (shared ??= newRenderer());
export const nameOf = (id: number) => names().find(([, v]) => v === id)![0].join("::");

export function draw(f: Row, r = renderer()) {
  const tree: SyntaxNode = request({ op: "Parse", row: f.values });
  const result = r.renderAll({ errors: null, value: tree });
  const math = fakeDocument.createElement("math");
  math.append(...(result.getElement(RowIndices.default()).getElements() as any));
  fakeDocument.body.replaceChildren(math);
  return { tree, result, math };
}

/** Text nodes of a row's own elements. */
const textOf = (es: readonly FNode[]) => es.flatMap(textNodes).map((t) => t.data);

function checkDrawing(f: Row, o: Obs) {
  const { tree, result, math } = draw(f);
  const want = glyphs(f);
  const got = textNodes(math);
  must(
    got.length === want.length && got.every((t, i) => t.data === want[i].text),
    () => `"${show(f)}" is drawn as "${got.map((t) => t.data).join("")}"`
  );
  o.evals(1);
  for (const { path, row } of allRows(f)) {
    const where = () => `row ${JSON.stringify(path)} of "${show(f)}"`;
    const indices = new RowIndices(path as any);
    const e: RenderedElement<any> = result.getElement(indices);
    must(e.syntaxTree.range.start === 0 && e.syntaxTree.range.end === row.values.length, () => `${where()}: its drawing covers ${JSON.stringify(e.syntaxTree.range)}`);
    const last = path[path.length - 1] ?? null;
    must(
      last === null ? e.rowIndex === null : e.rowIndex !== null && e.rowIndex[0] === last[0] && e.rowIndex[1] === last[1],
      () => `${where()}: its drawing says it is row ${JSON.stringify(e.rowIndex)} of its parent`
    );
    const texts = textOf(e.getElements() as any);
    const mine = glyphs(row).map((g) => g.text);
    must(texts.join("\n") === mine.join("\n"), () => `${where()}: its drawing shows "${texts.join("")}"`);
    must((e.getElements() as any[]).every((x) => x.isConnected), () => `${where()}: its drawing is not part of the whole`);
    const n = getNodeWithRowIndices(tree, indices);
    must(n === e.syntaxTree, () => `${where()}: its syntax tree and the one its drawing belongs to differ`);
    o.evals(5);
  }
  // Every node is drawn by exactly one element, under the one of its parent.
  const visit = (e: RenderedElement<any>, node: SyntaxNode) => {
    must(e.syntaxTree === node, () => `"${show(f)}": the drawing of a ${nameOf(node.name as any)} belongs to another node`);
    const c: any = node.children;
    const kids: SyntaxNode[] = c.Children ?? c.NewRows?.values ?? [];
    const drawn = e.getChildren();
    must(drawn.length === kids.length, () => `"${show(f)}": ${nameOf(node.name as any)} has ${kids.length} parts, ${drawn.length} are drawn`);
    kids.forEach((k, i) => {
      must(("NewRows" in c) === (drawn[i].rowIndex !== null), () => `"${show(f)}": a part of ${nameOf(node.name as any)} is wrongly (not) marked as a row`);
      visit(drawn[i], k);
    });
    checkKind(e, node, kids, f);
    o.evals(1);
  };
  visit(result.getElement(RowIndices.default()), tree);
  // The elements have the shape MathML asks for.
  checkShape(math, f);
  o.evals(1);
  return { tree, result, math };
}

/** Numbers, names, text and operators as such; scripts beside their base. */
const LEAF: Record<string, string> = {
  "Arithmetic::Number": "mn", "Core::Variable": "mi", "Calculus::Infinity": "mi", "Logic::True": "mi", "Logic::False": "mi",
  "BuiltIn::Operator": "mo", "String::String": "mtext", "Error::UnknownToken": "merror",
};
function checkKind(e: RenderedElement<any>, node: SyntaxNode, kids: SyntaxNode[], f: Row) {
  const name = nameOf(node.name as any);
  const own = e.getElements() as any as FElement[];
  const where = () => `"${show(f)}": a ${name} is drawn as ${own.map((x) => x.localName).join(" ")}`;
  if ("Leaf" in node.children && LEAF[name]) {
    const holders = new Set(own.flatMap(textNodes).map((t) => (t.parentNode as FElement).localName));
    must(holders.size === 1 && holders.has(LEAF[name]), where);
  }
  if (name === "BuiltIn::Sup" || name === "BuiltIn::Sub") {
    const tag = name === "BuiltIn::Sup" ? "msup" : "msub";
    const scripts = own.flatMap(elementsUnder).filter((x) => x.localName === tag && x.children.length === 2);
    const inside = (x: RenderedElement<any>, place: FElement) => (x.getElements() as any as FElement[]).every((y) => elementsUnder(place).includes(y));
    const [base, script] = e.getChildren() as RenderedElement<any>[];
    must(kids.length === 2 && scripts.some((x) => inside(base, x.children[0]) && inside(script, x.children[1])), where);
  }
  if (name === "BuiltIn::Root") {
    const roots = own.flatMap(elementsUnder).filter((x) => x.localName === "mroot");
    const [index, content] = e.getChildren() as RenderedElement<any>[];
    const inside = (x: RenderedElement<any>, place: FElement) => (x.getElements() as any as FElement[]).every((y) => elementsUnder(place).includes(y));
    must(roots.some((x) => inside(content, x.children[0]) && inside(index, x.children[1])), where);
  }
  // Brackets grow with what they enclose, also with blanks beside them.
  if (name === "Core::RoundBrackets") {
    const leaves = (n: SyntaxNode): SyntaxNode[] => (nameOf(n.name as any) === "BuiltIn::Whitespaces" ? ((n.children as any).Children as SyntaxNode[]).flatMap(leaves) : [n]);
    const isBracket = (n: SyntaxNode) => "Leaf" in n.children && nameOf(n.name as any) === "BuiltIn::Operator";
    for (const i of new Set([0, kids.length - 1]))
      if (kids[i] && leaves(kids[i]).some(isBracket)) {
        const drawn = (e.getChildren() as RenderedElement<any>[])[i].getElements() as any as FElement[];
        must(drawn.flatMap(elementsUnder).some((x) => x.getAttribute("stretchy") === "true"), () => `"${show(f)}": a bracket does not grow with its content`);
      }
  }
}

const SHAPE: Record<string, number> = { mfrac: 2, msup: 2, msub: 2, mroot: 2 };
function checkShape(math: FElement, f: Row) {
  const count: Record<string, number> = {};
  const visit = (e: FElement) => {
    count[e.localName] = (count[e.localName] ?? 0) + 1;
    if (e !== math) must(e.namespaceURI.endsWith("MathML"), () => `"${show(f)}": ${e.localName} is not a MathML element`);
    const n = SHAPE[e.localName];
    must(n === undefined || e.children.length === n, () => `"${show(f)}": ${e.localName} with ${e.children.length} children`);
    if (e.localName === "mtable") {
      must(e.children.every((c) => c.localName === "mtr") && new Set(e.children.map((c) => c.children.length)).size === 1, () => `"${show(f)}": the table is ragged`);
      must(e.children.every((r) => r.children.every((c) => c.localName === "mtd")), () => `"${show(f)}": a row of the table has something that is not a cell`);
    }
    e.children.forEach(visit);
  };
  visit(math);
  // One element for each of the formula's elements; tables with their own width.
  const tables: number[][] = [];
  const inputs: Record<string, number> = {};
  for (const { row } of allRows(f))
    for (const n of row.values)
      if (!isSymbol(n)) {
        const [k, { width, values }] = containerOf(n);
        inputs[k] = (inputs[k] ?? 0) + 1;
        if (k === "Table") tables.push([width, values.length / width]);
      }
  must((count.mfrac ?? 0) === (inputs.Fraction ?? 0), () => `"${show(f)}": ${count.mfrac ?? 0} mfrac`);
  must((count.msup ?? 0) === (inputs.Sup ?? 0), () => `"${show(f)}": ${count.msup ?? 0} msup`);
  must((count.msub ?? 0) === (inputs.Sub ?? 0), () => `"${show(f)}": ${count.msub ?? 0} msub`);
  must((count.mroot ?? 0) === (inputs.Root ?? 0), () => `"${show(f)}": ${count.mroot ?? 0} mroot`);
  const drawn: number[][] = [];
  const visitTables = (e: FElement) => {
    if (e.localName === "mtable") drawn.push([e.children[0].children.length, e.children.length]);
    e.children.forEach(visitTables);
  };
  visitTables(math);
  must(JSON.stringify(drawn.sort()) === JSON.stringify(tables.sort()), () => `"${show(f)}": tables of sizes ${JSON.stringify(drawn)} drawn for ${JSON.stringify(tables)}`);
}

function labels(f: Row, o: Obs) {
  for (const k of ["Fraction", "Root", "Sup", "Sub", "Table"] as const) o.labelIf(hasKind(f, k), k);
  o.labelIf(allRows(f).some(({ row }) => row.values.length === 0), "has an empty row");
  o.labelIf(allRows(f).some(({ path }) => path.length >= 2), "nested");
}

export const C25: Check = {
  id: "C25",
  rule:
    "Formulas of up to nine tokens of the standard rules' vocabulary per row (and symbols without a meaning), with fractions, roots, scripts and tables nested up to three deep, parsed by the native build of the real parser and drawn by the real renderer into a simulated document (development and production builds). Compared: the drawn texts in order, the drawing and the syntax node found by every row's address, the correspondence of nodes and drawings, the shape of the MathML. Non-trivial: the formula has an element or at least three symbols; distinct by formula.",
  assumptions: [
    "The WebAssembly bindings are replaced by the same calls to a native build; the document is simulated.",
    "Placeholders for missing operands (two no-break spaces) are not counted as texts.",
  ],
  parts: [
    part<Row>({
      name: "draw",
      quick: 36000,
      thorough: 900000,
      arbitrary: formulaArb,
      check(f, o) {
        checkDrawing(f, o);
        labels(f, o);
        o.nontrivialIf(size(f) >= 3 || allRows(f).length > 1);
      },
    }),
    part<{ f: Row; g: Row }>({
      name: "apart",
      quick: 7500,
      thorough: 180000,
      arbitrary: fc.record({ f: formulaArb, g: formulaArb }),
      check({ f, g }, o) {
        // What was drawn before does not change when another formula is drawn, with the same renderer or another.
        const first = draw(f);
        const before = first.math.outerHTML;
        const second = draw(g);
        must(first.math.outerHTML === before, () => `drawing "${show(g)}" changed the drawing of "${show(f)}"`);
        const again = draw(f, newRenderer());
        must(again.math.outerHTML === before, () => `"${show(f)}" is drawn differently the second time`);
        void second;
        for (const { path } of allRows(f)) {
          const e = first.result.getElement(new RowIndices(path as any));
          must((e.getElements() as any[]).length > 0, () => "no elements");
        }
        o.evals(2);
        labels(f, o);
        o.nontrivialIf(size(f) >= 2 && size(g) >= 2);
      },
    }),
  ],
};
void rowAt; void samePath;
export type { Path };
