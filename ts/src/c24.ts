// C24: importing MathML, against the meaning of the elements written down separately.
import fc from "fast-check";
import { fromElement } from "repo/mathml/parsing";
import { fakeDocument, FElement, FText } from "./dom";
import { allRows, containerOf, isSymbol, show, type Node, type Row } from "./formula";
import { must, part, type Check, type Obs } from "./runner";
import { request } from "./server";

/** An element: its name and its children, or its text. */
type M = { tag: string; kids: M[] } | { tag: string; text: string };

const isText = (m: M): m is { tag: string; text: string } => "text" in m;

function build(m: M, upper: boolean, spaces: boolean): FElement {
  const e = fakeDocument.createElementNS("http://www.w3.org/1998/Math/MathML", upper ? m.tag.toUpperCase() : m.tag);
  if (isText(m)) e.appendChild(new FText(m.text));
  else {
    for (const k of m.kids) {
      if (spaces) e.appendChild(new FText("\n  "));
      e.appendChild(build(k, upper, spaces));
    }
    if (spaces) e.appendChild(new FText("\n"));
  }
  return e;
}

// What the elements mean. An unusable element stands for one mark of unknown content.
type Want = { s: string } | { k: string; rows: Want[][]; width: number } | { bad: true };
const bad: Want[] = [{ bad: true }];
const segmenter = new Intl.Segmenter("en", { granularity: "grapheme" });
const graphemes = (s: string) => [...segmenter.segment(s)].map((x) => x.segment.normalize("NFD"));

function meaning(m: M): Want[] {
  const kids = isText(m) ? [] : m.kids;
  const all = () => kids.flatMap(meaning);
  const script = (n: number, ...scripts: string[]): Want[] =>
    kids.length !== n ? bad : [...meaning(kids[0]), ...scripts.map((k, i) => ({ k, rows: [meaning(kids[i + 1])], width: 1 }))];
  const text = () => graphemes((isText(m) ? m.text : "").trim()).map((s) => ({ s }));
  switch (m.tag) {
    case "math": case "mrow": case "mtd": case "mstyle":
      return all();
    case "semantics":
      return kids.length ? meaning(kids[0]) : bad;
    case "mi": case "mn": case "mo":
      return text();
    case "mtext": case "ms":
      return [{ s: '"' }, ...text(), { s: '"' }];
    case "mfrac":
      return kids.length !== 2 ? bad : [{ k: "Fraction", rows: kids.map(meaning), width: 1 }];
    case "msqrt":
      return [{ k: "Root", rows: [[{ s: "2" }], all()], width: 2 }];
    case "mroot":
      return kids.length !== 2 ? bad : [{ k: "Root", rows: [meaning(kids[1]), meaning(kids[0])], width: 2 }];
    case "msub": case "munder":
      return script(2, "Sub");
    case "msup": case "mover":
      return script(2, "Sup");
    case "msubsup": case "munderover":
      return script(3, "Sub", "Sup");
    case "mtable": {
      const rows = kids.map((r) => (isText(r) ? [] : r.kids));
      if (kids.some((r) => r.tag !== "mtr") || rows.some((r) => r.some((c) => c.tag !== "mtd"))) return bad;
      const width = Math.max(0, ...rows.map((r) => r.length));
      // A table without cells holds nothing that could be shown as one.
      if (width === 0) return bad;
      return [{ k: "Table", rows: rows.flatMap((r) => Array.from({ length: width }, (_, i) => (r[i] ? meaning(r[i]) : []))), width }];
    }
    default:
      return bad;
  }
}

/** Compares, and counts the marks. A mark may be any non-empty symbols. */
function compare(got: Node[], want: Want[], where: string, marks: { text: string | null; n: number }) {
  let i = 0;
  for (const w of want) {
    const g = got[i];
    must(g !== undefined, () => `${where}: ends early, ${JSON.stringify(w)} is missing`);
    if ("bad" in w) {
      // All marks are alike; the first one tells how they look.
      if (marks.text === null) marks.text = markOf(got, want, i, w);
      const parts = marks.text === "" ? [] : segments(marks.text);
      let text = "";
      while (i < got.length && text.length < marks.text.length) {
        const n = got[i++];
        must(isSymbol(n), () => `${where}: an element where a mark for unusable content is expected`);
        text += n.Symbol;
      }
      must(text === marks.text, () => `${where}: ${JSON.stringify(text)} instead of the mark ${JSON.stringify(marks.text)} for unusable content`);
      void parts;
      marks.n++;
      continue;
    }
    i++;
    if ("s" in w) {
      must(isSymbol(g) && g.Symbol === w.s, () => `${where}: ${JSON.stringify(g).slice(0, 80)} instead of the symbol ${JSON.stringify(w.s)}`);
    } else {
      must(!isSymbol(g), () => `${where}: ${JSON.stringify(g)} instead of a ${w.k}`);
      const [kind, grid] = containerOf(g);
      must(kind === w.k, () => `${where}: a ${kind} instead of a ${w.k}`);
      must(grid.width === w.width && grid.values.length === w.rows.length, () => `${where}: ${kind} of ${grid.values.length} rows, width ${grid.width}; should be ${w.rows.length}, ${w.width}`);
      w.rows.forEach((r, j) => compare(grid.values[j].values, r, `${where}/${i - 1}:${j}`, marks));
    }
  }
  must(i === got.length, () => `${where}: ${got.length - i} nodes too many`);
}
const segments = (s: string) => [...segmenter.segment(s)].map((x) => x.segment);
/** The mark as the import of one unsupported element alone shows it. */
let aloneMark: string | null = null;
function markOf(_got: Node[], _want: Want[], _i: number, _w: Want): string {
  if (aloneMark === null) {
    const root = fakeDocument.createElementNS("http://www.w3.org/1998/Math/MathML", "math");
    root.appendChild(fakeDocument.createElementNS("http://www.w3.org/1998/Math/MathML", "mglyph"));
    const r = fromElement(root as any).root as Row;
    must(r.values.length > 0 && r.values.every(isSymbol), () => "unusable content is not marked by symbols");
    aloneMark = r.values.map((n) => (n as any).Symbol).join("");
  }
  return aloneMark;
}

/** Shapes the rest of the editor relies on. */
export function wellFormed(f: Row) {
  for (const { row } of allRows(f)) {
    for (const n of row.values) {
      if (isSymbol(n)) {
        must(n.Symbol === n.Symbol.normalize("NFD"), () => `symbol ${JSON.stringify(n.Symbol)} is not normalized`);
        must(segments(n.Symbol).length === 1, () => `symbol ${JSON.stringify(n.Symbol)} is not one grapheme`);
      } else {
        const [kind, { values, width }] = containerOf(n);
        const rows = values.length;
        const ok =
          kind === "Fraction" ? width === 1 && rows === 2
          : kind === "Root" ? width === 2 && rows === 2
          : kind === "Sup" || kind === "Sub" ? width === 1 && rows === 1
          : kind === "Table" ? width > 0 && rows > 0 && rows % width === 0
          : false;
        must(ok, () => `${kind} with ${rows} rows and width ${width}`);
      }
    }
  }
}

const countBad = (w: Want[]): number => w.reduce((a, x) => a + ("bad" in x ? 1 : "k" in x ? x.rows.reduce((b, r) => b + countBad(r), 0) : 0), 0);

const TEXTS = ["x", "12", "+", "sin", "∑", "é", "e\u0301", "한국", "각", "👍🏽", "👩‍👩‍👧", "q\u0307\u0323", "ẛ", "नि", " a ", "", "  ", "a b", "\"", "≠", "\u00a0", "<&>", "ﬁ", "\ud83c\uddf7\ud83c\uddf4\ud83c\uddf4", "\r\n", "Å", "\u2062", "\u2061", "\u200b", "a\u200bb", "\u2212", "a\nb", "\n", "\u2009x\t", "\ufeff", "ﷺ", "\u0301", "\0"];
const token: fc.Arbitrary<M> = fc.record({
  tag: fc.constantFrom("mi", "mi", "mn", "mn", "mo", "mo", "mtext", "ms"),
  text: fc.oneof(
    { weight: 60, arbitrary: fc.constantFrom(...TEXTS) },
    { weight: 20, arbitrary: fc.array(fc.constantFrom(...TEXTS), { maxLength: 4 }).map((t) => t.join("")) },
    { weight: 1, arbitrary: fc.array(fc.constantFrom(...TEXTS), { minLength: 5, maxLength: 60 }).map((t) => t.join("")) }
  ),
});
const UNKNOWN = ["mspace", "mphantom", "mglyph", "mpadded", "merror", "mmultiscripts", "annotation", "none", "div", "mtr", "maction"];

/** `wild`: how often an element gets a number of children it cannot use. */
function element(depth: number, wild: boolean): fc.Arbitrary<M> {
  if (depth === 0) return token;
  const kid = element(depth - 1, wild);
  const some = (min: number, max: number) => fc.array(kid, { minLength: min, maxLength: max });
  const count = (n: number) => (wild ? fc.oneof({ weight: 3, arbitrary: some(n, n) }, { weight: 1, arbitrary: some(0, n + 1) }) : some(n, n));
  const of = (tags: string[], kids: fc.Arbitrary<M[]>): fc.Arbitrary<M> => fc.record({ tag: fc.constantFrom(...tags), kids });
  const cell: fc.Arbitrary<M> = fc.record({ tag: wild ? fc.constantFrom("mtd", "mtd", "mtd", "mtd", "mtd", "mtd", "mtd", "mi") : fc.constant("mtd"), kids: some(0, 2) });
  // Some rows are wide, with cells that are alike.
  const cells = fc.oneof(
    { weight: 5, arbitrary: fc.array(cell, { maxLength: 3 }) },
    { weight: 1, arbitrary: fc.record({ a: cell, b: cell, which: fc.array(fc.boolean(), { minLength: 2, maxLength: 9 }) }).map(({ a, b, which }) => which.map((w) => (w ? b : a))) }
  );
  const tableRow: fc.Arbitrary<M> = fc.record({ tag: wild ? fc.constantFrom("mtr", "mtr", "mtr", "mtr", "mtr", "mtr", "mtr", "mtd") : fc.constant("mtr"), kids: cells });
  return fc.oneof(
    { weight: 3, arbitrary: token },
    { weight: 2, arbitrary: of(["mrow", "mrow", "mstyle", "msqrt", "math"], some(0, 3)) },
    ...(depth === 1 ? [{ weight: 1, arbitrary: of(["mrow", "msqrt"], some(4, 24)) }] : []),
    { weight: 2, arbitrary: of(["mfrac", "mroot"], count(2)) },
    { weight: 3, arbitrary: of(["msub", "msup", "munder", "mover"], count(2)) },
    { weight: 2, arbitrary: of(["msubsup", "munderover"], count(3)) },
    { weight: 2, arbitrary: fc.record({ tag: fc.constant("mtable"), kids: fc.array(tableRow, { minLength: wild ? 0 : 1, maxLength: 3 }) }) },
    { weight: 1, arbitrary: wild ? of(["semantics"], some(0, 3)) : some(0, 2).chain((k) => kid.map((f) => ({ tag: "semantics", kids: [f, ...k] }))) },
    ...(wild ? [{ weight: 1, arbitrary: of(UNKNOWN, some(0, 2)) }] : [])
  );
}
/** Large tables, and elements in elements in elements. */
function large(wild: boolean): fc.Arbitrary<M> {
  const cells = (width: number) => fc.array(fc.array(token, { maxLength: 1 }).map((kids): M => ({ tag: "mtd", kids })), { minLength: wild ? Math.max(0, width - 2) : width, maxLength: width });
  const lines = fc.integer({ min: 1, max: 24 }).chain((width) => fc.array(cells(width).map((kids): M => ({ tag: "mtr", kids })), { minLength: 1, maxLength: 24 }));
  const level = fc.tuple(fc.constantFrom("mrow", "msqrt", "mfrac", "mroot", "msub", "msup", "munder", "mover", "msubsup", "munderover", "mstyle", "semantics", "table"), fc.nat(), token, token);
  const chain = fc.tuple(fc.array(level, { minLength: 5, maxLength: 16 }), token).map(([levels, core]) =>
    levels.reduce<M>((inner, [tag, at, a, b]) => {
      if (tag === "table") return { tag: "mtable", kids: [{ tag: "mtr", kids: [{ tag: "mtd", kids: at % 2 ? [a, inner] : [inner, b] }] }] };
      const n = tag === "mrow" || tag === "msqrt" || tag === "mstyle" ? 1 + (at % 3) : tag === "semantics" || tag === "msubsup" || tag === "munderover" ? 3 : 2;
      const kids = [a, b].slice(0, n - 1);
      // Only the first part of semantics counts.
      kids.splice(tag === "semantics" ? 0 : at % n, 0, inner);
      return { tag, kids };
    }, core)
  );
  return fc.oneof(lines.map((kids): M => ({ tag: "mtable", kids })), chain);
}
type Case = { doc: M; upper: boolean; spaces: boolean };
const doc = (wild: boolean): fc.Arbitrary<Case> =>
  fc.record({
    doc: fc.array(fc.oneof({ weight: 20, arbitrary: element(3, wild) }, { weight: 10, arbitrary: element(1, wild) }, { weight: 1, arbitrary: large(wild) }), { maxLength: 4 }).map((kids) => ({ tag: "math", kids })),
    upper: fc.constantFrom(false, false, true),
    spaces: fc.boolean(),
  });

function check({ doc, upper, spaces }: Case, o: Obs) {
  const want = meaning(doc);
  const { root, errors } = fromElement(build(doc, upper, spaces) as any) as { root: Row; errors: Error[] };
  const marks = { text: null as string | null, n: 0 };
  compare(root.values, want, "math", marks);
  wellFormed(root);
  request({ op: "Check", row: root.values });
  const expected = countBad(want);
  must(errors.length === expected, () => `${errors.length} errors reported for ${expected} unusable elements: ${errors.map((e) => e.message)}`);
  must(errors.every((e) => e instanceof Error && e.message.length > 0), () => "an error without a message");
  o.evals(3);
  const kinds = new Set(allRows(root).flatMap(({ row }) => row.values.filter((n) => !isSymbol(n)).map((n) => containerOf(n)[0])));
  kinds.forEach((k) => o.label(k));
  o.labelIf(expected > 0, "unusable content");
  o.labelIf(allRows(root).some(({ path }) => path.length >= 2), "nested");
  o.nontrivialIf(kinds.size > 0 || expected > 0);
  void show;
}

export const C24: Check = {
  id: "C24",
  rule:
    "Trees of MathML elements up to four deep below math, with texts of several scripts (combining marks, emoji sequences, Hangul, flags), in upper or lower case and with or without white space between the elements: once only well-formed ones, once with unsupported elements, wrong numbers of children, ragged and misbuilt tables. Each is imported through a simulated DOM and compared with the meaning of its elements, checked for well-formedness and read by the Rust side. Non-trivial: the result has an element or the document an unusable one; distinct by document.",
  assumptions: [
    "The DOM is simulated (children, tagName, textContent).",
    "Space inside the text of a token is kept as written, not collapsed.",
    "A table without any cell is unusable content (the editor has no empty table).",
  ],
  parts: [
    part<Case>({ name: "good", quick: 36000, thorough: 900000, arbitrary: doc(false), check }),
    part<Case>({ name: "any", quick: 48000, thorough: 1200000, arbitrary: doc(true), check }),
  ],
};
