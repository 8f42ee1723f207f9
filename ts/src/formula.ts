// Formulas as plain data, their generators, and what they should look like.
import fc from "fast-check";
import { FElement, FNode, FText } from "./dom";

export type Node = { Symbol: string } | { Container: [Kind, { values: Row[]; width: number }] };
export type Kind = "Fraction" | "Root" | "Sup" | "Sub" | "Table";
export type Row = { values: Node[] };
export type Path = [number, number][];

export const isSymbol = (n: Node): n is { Symbol: string } => "Symbol" in n;
export const containerOf = (n: Node) => (n as any).Container as [Kind, { values: Row[]; width: number }];

export function rowAt(f: Row, path: Path): Row | null {
  for (const [i, j] of path) {
    const n = f.values[i];
    if (!n || isSymbol(n)) return null;
    const r = containerOf(n)[1].values[j];
    if (!r) return null;
    f = r;
  }
  return f;
}
export function allRows(f: Row, path: Path = []): { path: Path; row: Row }[] {
  return [
    { path, row: f },
    ...f.values.flatMap((n, i) =>
      isSymbol(n) ? [] : containerOf(n)[1].values.flatMap((r, j) => allRows(r, [...path, [i, j]]))
    ),
  ];
}
export function allPlaces(f: Row): { path: Path; offset: number }[] {
  return allRows(f).flatMap(({ path, row }) => row.values.map((_, i) => i).concat(row.values.length).map((offset) => ({ path, offset })));
}
export const size = (f: Row): number => allRows(f).reduce((a, r) => a + r.row.values.length, 0);
export const depth = (f: Row): number => Math.max(...allRows(f).map((r) => r.path.length));
export const hasKind = (f: Row, ...k: Kind[]) => allRows(f).some(({ row }) => row.values.some((n) => !isSymbol(n) && k.includes(containerOf(n)[0])));

/** Everything the standard rules give a meaning to, and things they give none. */
export const VOCABULARY = [
  "a", "b", "x", "ŝ".normalize("NFD"), "0", "1", "7", ".", "+", "-", "*", "/", "^", "!", "=", "<", ">", "≤", "≥", "(", ")", ",", " ", '"', "\\",
  "∞", "∑", "∫", "⊤", "⊥", "∧", "∨", "¬", "⇔", "⇒", "#", "[", "|", "∈", "👍🏽", "_",
];
const WORDS = ["lim", "limsup", "liminf", "12", "3.5", "a b", " +  1", '"a b"', "f(x)", "f()", "(a,b)", "(1,2,3)", "x!", "x = 1", "  ", "¬a", "( )", "x ", "l i m", "<=", ">=", "sqrt"];

const split = (w: string): Node[] => [...w].map((c) => ({ Symbol: c }));

export const symbolArb: fc.Arbitrary<Node> = fc.constantFrom(...VOCABULARY).map((s) => ({ Symbol: s }));

/** Rows with elements nested at most `depth` deep. */
export function rowArb(depth: number, max: number): fc.Arbitrary<Row> {
  const item: fc.Arbitrary<Node[]> = fc.oneof(
    { weight: 6, arbitrary: symbolArb.map((n) => [n]) },
    { weight: 2, arbitrary: fc.constantFrom(...WORDS).map(split) },
    ...(depth > 0 ? [{ weight: 4, arbitrary: nodeArb(depth).map((n) => [n]) }] : [])
  );
  return fc.array(item, { maxLength: max }).map((items) => ({ values: bounded(items.flat()) }));
}
/** Unclosed brackets make parsing slow (known finding of C19). */
function bounded(nodes: Node[]): Node[] {
  let open = 0;
  return nodes.filter((n) => !(isSymbol(n) && n.Symbol === "(") || ++open <= 6);
}
export function nodeArb(depth: number): fc.Arbitrary<Node> {
  const inner = rowArb(depth - 1, depth > 1 ? 4 : 3);
  const of = (kind: Kind, values: Row[], width: number): Node => ({ Container: [kind, { values, width }] });
  return fc.oneof(
    { weight: 3, arbitrary: fc.tuple(inner, inner).map(([a, b]) => of("Fraction", [a, b], 1)) },
    { weight: 2, arbitrary: fc.tuple(inner, inner).map(([a, b]) => of("Root", [a, b], 2)) },
    { weight: 3, arbitrary: inner.map((a) => of("Sup", [a], 1)) },
    { weight: 3, arbitrary: inner.map((a) => of("Sub", [a], 1)) },
    {
      weight: 2,
      arbitrary: fc
        .tuple(fc.integer({ min: 1, max: 3 }), fc.integer({ min: 1, max: 3 }))
        .chain(([w, h]) => fc.array(inner, { minLength: w * h, maxLength: w * h }).map((c) => of("Table", c, w))),
    }
  );
}
/** Long rows, tables with many columns or lines, elements in elements in elements. */
const tokenArb: fc.Arbitrary<Node[]> = fc.oneof({ weight: 6, arbitrary: symbolArb.map((n) => [n]) }, { weight: 2, arbitrary: fc.constantFrom(...WORDS).map(split) });
const largeArb: fc.Arbitrary<Row> = fc.oneof(
  fc.tuple(fc.array(tokenArb, { minLength: 20, maxLength: 80 }), fc.array(fc.tuple(fc.nat(), nodeArb(1)), { maxLength: 3 })).map(([t, more]) => {
    const values = bounded(t.flat());
    for (const [at, n] of more) values.splice(at % (values.length + 1), 0, n);
    return { values };
  }),
  fc
    .tuple(fc.integer({ min: 1, max: 14 }), fc.integer({ min: 1, max: 14 }), fc.boolean(), rowArb(0, 2), rowArb(0, 2))
    .chain(([w, h, line, before, after]) => {
      const [width, height] = line ? [w, 1] : [w, Math.min(h, Math.ceil(40 / w))];
      return fc
        .array(fc.oneof({ weight: 6, arbitrary: rowArb(0, 1) }, { weight: 1, arbitrary: rowArb(1, 2) }), { minLength: width * height, maxLength: width * height })
        .map((values) => ({ values: [...before.values, { Container: ["Table", { values, width }] } as Node, ...after.values] }));
    }),
  fc
    .array(fc.tuple(fc.constantFrom<Kind>("Fraction", "Root", "Sup", "Sub", "Table"), fc.nat(), rowArb(0, 1), rowArb(0, 2), rowArb(0, 2)), { minLength: 4, maxLength: 9 })
    .map((levels) =>
      levels.reduce<Row>(
        (inner, [kind, at, other, before, after]) => {
          const one = kind === "Sup" || kind === "Sub";
          const values = one ? [inner] : at % 2 ? [inner, other] : [other, inner];
          return { values: [...bounded(before.values), { Container: [kind, { values, width: kind === "Root" || (kind === "Table" && at % 3 === 0) ? 2 : 1 }] }, ...bounded(after.values)] };
        },
        { values: [] }
      )
    )
);
export const formulaArb = fc.oneof({ weight: 21, arbitrary: rowArb(2, 6) }, { weight: 7, arbitrary: rowArb(3, 3) }, { weight: 7, arbitrary: rowArb(1, 9) }, { weight: 1, arbitrary: largeArb });

/** What is drawn where something is missing. */
const PLACEHOLDERS = ["⬚", "\xA0\xA0"];

/** The texts a drawing of the formula consists of, in document order, each with the input nodes it belongs to. */
export type Glyph = { text: string; path: Path; index: number };
export function glyphs(f: Row, path: Path = []): Glyph[] {
  return f.values.flatMap((n, i) => {
    if (isSymbol(n)) return [{ text: n.Symbol, path, index: i }];
    const [kind, { values }] = containerOf(n);
    const rows = values.map((r, j) => glyphs(r, [...path, [i, j]]));
    // A root is written with what is under it in front of its index.
    if (kind === "Root") rows.reverse();
    return rows.flat();
  });
}
export function textNodes(n: FNode): FText[] {
  if (n instanceof FText) return PLACEHOLDERS.includes(n.data) ? [] : [n];
  return n.childNodes.flatMap(textNodes);
}
export const samePath = (a: Path, b: Path) => JSON.stringify(a) === JSON.stringify(b);
export const show = (f: Row): string =>
  f.values
    .map((n) => {
      if (isSymbol(n)) return n.Symbol;
      const [k, { values, width }] = containerOf(n);
      return `⟨${k}${k === "Table" ? width : ""}${values.map((v) => `{${show(v)}}`).join("")}⟩`;
    })
    .join("");

export function elementsUnder(e: FElement): FElement[] {
  return [e, ...e.children.flatMap(elementsUnder)];
}
