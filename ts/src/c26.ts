// C26: places on screen, hit testing and selections, under simulated layouts.
import fc from "fast-check";
import { RowIndices } from "repo/input-tree/row-indices";
import type { RenderedElement } from "repo/rendering/render-result";
import { draw } from "./c25";
import { FElement, FText, layout, setLayout, type FNode, type LayoutOptions, type Rect } from "./dom";
import { allPlaces, allRows, containerOf, formulaArb, glyphs, hasKind, isSymbol, rowAt, samePath, show, size, textNodes, type Path, type Row } from "./formula";
import { must, part, type Check, type Obs } from "./runner";

export const layoutArb: fc.Arbitrary<LayoutOptions> = fc.record({
  x: fc.integer({ min: -300, max: 300 }).map((i) => i / 4),
  y: fc.integer({ min: -300, max: 300 }).map((i) => i / 4),
  fontSize: fc.constantFrom(8, 12, 16, 20, 48),
  outX: fc.constantFrom(0, 10, -20),
  outY: fc.constantFrom(0, 10, -20),
  widths: fc.array(fc.integer({ min: 2, max: 12 }), { minLength: 1, maxLength: 5 }),
});

const EPS = 1e-6;
type Pt = { x: number; y: number };
type Drawn = ReturnType<typeof draw> & { f: Row; glyph: Map<string, Rect> };
const key = (path: Path, i: number) => JSON.stringify(path) + i;

function drawn(f: Row, l: LayoutOptions): Drawn {
  setLayout(l);
  const d = draw(f);
  const texts = textNodes(d.math);
  const gs = glyphs(f);
  must(texts.length === gs.length && gs.every((g, i) => texts[i].data === g.text), () => `"${show(f)}" is drawn as "${texts.map((t) => t.data).join("")}"`);
  const glyph = new Map(gs.map((g, i) => [key(g.path, g.index), layout().rects.get(texts[i])!]));
  return { ...d, f, glyph };
}
const element = (d: Drawn, path: Path): RenderedElement<any> => d.result.getElement(new RowIndices(path as any));
const place = (d: Drawn, path: Path, offset: number): Pt => element(d, path).getCaretPosition(offset);
const distance = (a: Pt, b: Pt) => Math.hypot(a.x - b.x, a.y - b.y);
const named = (d: Drawn, path: Path, offset: number) => `place ${offset} of row ${JSON.stringify(path)} of "${show(d.f)}"`;

/** The box of everything drawn for an input node. */
function boxOf(d: Drawn, path: Path, i: number): Rect {
  const n = rowAt(d.f, path)!.values[i];
  if (isSymbol(n)) return d.glyph.get(key(path, i))!;
  const rs = containerOf(n)[1].values.map((_, j) => drawnBox(element(d, [...path, [i, j]]).getElements() as any));
  return rs.reduce(union);
}
function union(a: Rect, b: Rect): Rect {
  const left = Math.min(a.left, b.left), top = Math.min(a.top, b.top), right = Math.max(a.right, b.right), bottom = Math.max(a.bottom, b.bottom);
  return { x: left, y: top, left, top, right, bottom, width: right - left, height: bottom - top };
}
const drawnBox = (es: FElement[]) => es.map((e) => layout().rects.get(e)!).reduce(union);
/** The box of what is visible of a row: its texts, placeholders included. */
function ink(es: FNode[]): Rect {
  const texts = (n: FNode): FText[] => (n instanceof FText ? [n] : n.childNodes.flatMap(texts));
  return es.flatMap(texts).map((t) => layout().rects.get(t)!).reduce(union);
}

function places(d: Drawn, o: Obs) {
  for (const { path, row } of allRows(d.f)) {
    const e = element(d, path);
    const box = drawnBox(e.getElements() as any);
    let last = -Infinity;
    for (let k = 0; k <= row.values.length; k++) {
      const p = e.getCaretPosition(k);
      must(Number.isFinite(p.x) && Number.isFinite(p.y), () => `${named(d, path, k)} is at ${JSON.stringify(p)}`);
      must(p.x > last + EPS, () => `${named(d, path, k)} is at ${p.x}, not right of the one before at ${last}`);
      last = p.x;
      if (k > 0) {
        const b = boxOf(d, path, k - 1);
        must(p.x >= b.right - EPS, () => `${named(d, path, k)} is at ${p.x}, inside of what is drawn in front of it (up to ${b.right})`);
      }
      if (k < row.values.length) {
        const b = boxOf(d, path, k);
        must(p.x <= b.left + EPS, () => `${named(d, path, k)} is at ${p.x}, inside of what is drawn behind it (from ${b.left})`);
      }
      must(p.x >= box.left - EPS && p.x <= box.right + EPS && p.y >= box.top - EPS && p.y <= box.bottom + EPS, () => `${named(d, path, k)} is outside of what is drawn of the row`);
      // In a row of symbols only it stands on their line.
      const beside = row.values.every(isSymbol) ? [k - 1, k].filter((i) => i >= 0 && i < row.values.length).map((i) => d.glyph.get(key(path, i))!) : [];
      must(!beside.length || beside.some((g) => Math.abs(p.y - g.bottom) <= EPS), () => `${named(d, path, k)} is at a height of ${p.y}, the symbols beside it stand on ${beside.map((g) => g.bottom)}`);
      o.evals(5);
    }
    // The caret is as large as the text of the row.
    const texts = (e.getElements() as FElement[]).map((x) => layout().fonts.get(x)!);
    const size = d.result.getViewportCaretSize(new RowIndices(path as any));
    must(texts.includes(size), () => `caret size ${size} in row ${JSON.stringify(path)} of "${show(d.f)}" where texts are of size ${texts}`);
    o.evals(1);
  }
}

const at = (d: Drawn, p: Pt): { path: Path; offset: number } => {
  const r = d.result.getLayoutPosition(p);
  const path = [...r.indices] as Path;
  const row = rowAt(d.f, path);
  must(row !== null && Number.isInteger(r.offset) && r.offset >= 0 && r.offset <= row.values.length, () => `a click at ${JSON.stringify(p)} on "${show(d.f)}" gives ${JSON.stringify(path)}:${r.offset}, which does not exist`);
  return { path, offset: r.offset };
};

function clickOnGlyphs(d: Drawn, fractions: number[], o: Obs) {
  for (const g of glyphs(d.f)) {
    const b = d.glyph.get(key(g.path, g.index))!;
    for (const t of fractions) {
      if (Math.abs(t - 0.5) < 0.01) continue;
      const p = { x: b.left + t * b.width, y: b.top + b.height * (0.05 + 0.9 * ((t * 7) % 1)) };
      const hit = at(d, p);
      const want = t < 0.5 ? g.index : g.index + 1;
      must(samePath(hit.path, g.path) && hit.offset === want, () => `a click on the ${t < 0.5 ? "left" : "right"} half of the "${g.text}" at ${JSON.stringify(g.path)}:${g.index} of "${show(d.f)}" gives ${JSON.stringify(hit)}`);
      o.evals(1);
    }
  }
}

const inside = (p: Pt, b: { x: number; y: number; width: number; height: number }, slack: number) =>
  p.x >= b.x - slack && p.x <= b.x + b.width + slack && p.y >= b.y - slack && p.y <= b.y + b.height + slack;

/** A click gives a place nearest to it, of those in the innermost part of the drawing that is under it. */
function clickAnywhere(d: Drawn, p: Pt, o: Obs) {
  const hit = at(d, p);
  const visit = (e: RenderedElement<any>, path: Path): { e: RenderedElement<any>; path: Path }[] => {
    if (!inside(p, e.getBounds(), 1e-9)) return [];
    const deeper = e.getChildren().flatMap((c) => visit(c, c.rowIndex ? [...path, c.rowIndex as [number, number]] : path));
    // On an edge of a part it may or may not be under the click.
    return inside(p, e.getBounds(), -1e-9) && deeper.some((x) => inside(p, x.e.getBounds(), -1e-9)) ? deeper : [...deeper, { e, path }];
  };
  const root = element(d, []);
  let parts = visit(root, []);
  if (!parts.length) parts = [{ e: root, path: [] }];
  if (!inside(p, root.getBounds(), -1e-9)) parts.push({ e: root, path: [] });
  const ok = parts.some(({ e, path }) => {
    const { start, end } = e.syntaxTree.range;
    const inRow = Array.from({ length: end - start + 1 }, (_, i) => ({ path, offset: start + i }));
    const below = allPlaces(d.f).filter(
      (x) => x.path.length > path.length && samePath(x.path.slice(0, path.length), path) && x.path[path.length][0] >= start && x.path[path.length][0] < end
    );
    const deep = below.map((x) => ({ ...x, at: place(d, x.path, x.offset) }));
    return [true, false].some((own) => {
      const all = [...inRow.map((x) => ({ ...x, at: own ? e.getCaretPosition(x.offset) : place(d, x.path, x.offset) })), ...deep];
      const best = Math.min(...all.map((x) => distance(x.at, p)));
      return all.some((x) => samePath(x.path, hit.path) && x.offset === hit.offset && distance(x.at, p) <= best + EPS);
    });
  });
  must(ok, () => `a click at (${p.x}, ${p.y}) on "${show(d.f)}" gives ${JSON.stringify(hit)}, which is not the nearest place`);
  o.evals(1);
}

function selections(d: Drawn, o: Obs) {
  for (const { path, row } of allRows(d.f)) {
    const e = element(d, path);
    const box = drawnBox(e.getElements() as any);
    const indices = new RowIndices(path as any);
    const bounds = d.result.getViewportRowBounds(indices);
    const n = row.values.length;
    const shown = ink(e.getElements() as any);
    must(
      bounds.x <= shown.left + EPS && bounds.y <= shown.top + EPS && bounds.x + bounds.width >= shown.right - EPS && bounds.y + bounds.height >= shown.bottom - EPS,
      () => `the bounds of row ${JSON.stringify(path)} of "${show(d.f)}" leave out a part of it`
    );
    must(bounds.width <= box.width + EPS && bounds.height <= box.height + EPS, () => `the bounds of row ${JSON.stringify(path)} of "${show(d.f)}" are larger than its drawing`);
    const partsOf = (x: RenderedElement<any>): { from: number; to: number; inner: boolean; box: any }[] => {
      const { start, end } = x.syntaxTree.range;
      const kids = x.getChildren().filter((c) => !c.rowIndex);
      return [{ from: start, to: end, inner: kids.length > 0, box: x.getBounds() }, ...kids.flatMap(partsOf)];
    };
    const parts = partsOf(e);
    const pairs = Array.from({ length: n + 1 }, (_, a) => Array.from({ length: n + 1 - a }, (_, i) => [a, a + i])).flat();
    const chosen = pairs.length <= 30 ? pairs : pairs.filter((_, i) => i % Math.ceil(pairs.length / 30) === 0);
    for (const [a, b] of chosen) {
      const s = d.result.getViewportSelection({ indices, start: a, end: b });
      const back = d.result.getViewportSelection({ indices, start: b, end: a });
      const where = () => `selection ${a}..${b} in row ${JSON.stringify(path)} of "${show(d.f)}"`;
      const left = place(d, path, a), right = place(d, path, b);
      const r = s.rect;
      must(JSON.stringify([s.rect, s.baseline]) === JSON.stringify([back.rect, back.baseline]), () => `${where()} is drawn differently backwards`);
      must(Math.abs(r.x - left.x) <= EPS && Math.abs(r.width - (right.x - left.x)) <= EPS, () => `${where()} is drawn from ${r.x} to ${r.x + r.width}, its ends are at ${left.x} and ${right.x}`);
      must(s.isCollapsed === (a === b), () => `${where()}: collapsed: ${s.isCollapsed}`);
      must(Math.abs(s.baseline - place(d, path, 0).y) <= EPS, () => `${where()}: baseline at ${s.baseline}`);
      if (a === b) {
        must(Math.abs(r.height) <= EPS && Math.abs(r.y - left.y) <= EPS, () => `${where()}: empty, at ${r.y} with a height of ${r.height}`);
      } else {
        must(r.y >= box.top - EPS && r.y + r.height <= box.bottom + EPS, () => `${where()} reaches from ${r.y} to ${r.y + r.height}, outside of the row (${box.top} to ${box.bottom})`);
        // No taller than the parts of the drawing that it touches.
        const touched = parts.filter((x) => x.from < b && a < x.to && (!x.inner || (a <= x.from && x.to <= b)));
        const top = Math.min(...touched.map((x) => x.box.y)), bottom = Math.max(...touched.map((x) => x.box.y + x.box.height));
        must(r.y >= top - EPS && r.y + r.height <= bottom + EPS, () => `${where()} reaches from ${r.y} to ${r.y + r.height}, what it touches from ${top} to ${bottom}`);
        for (let i = a; i < b; i++) {
          const g = boxOf(d, path, i);
          must(r.y <= g.top + EPS && r.y + r.height >= g.bottom - EPS, () => `${where()} reaches from ${r.y} to ${r.y + r.height}, input ${i} from ${g.top} to ${g.bottom}`);
        }
      }
      o.evals(5);
    }
  }
}

function labels(f: Row, o: Obs) {
  for (const k of ["Fraction", "Root", "Sup", "Sub", "Table"] as const) o.labelIf(hasKind(f, k), k);
  o.labelIf(allRows(f).some(({ path }) => path.length >= 2), "nested");
  o.nontrivialIf(size(f) >= 2);
}
type Case = { f: Row; l: LayoutOptions };
const base = fc.record({ f: formulaArb, l: layoutArb });

export const C26: Check = {
  id: "C26",
  rule:
    "Formulas as for C25, laid out by a simulated layout (five font sizes, symbol widths drawn per case, scripts, fractions, roots, tables and stretched brackets placed like a browser would) at a random place; all caret places of all rows, clicks on all places, on both halves of all symbols and on twelve points in and around the drawing per case, and all (at most 30 per row) selections of every row. Non-trivial: at least two inputs; distinct by formula and layout.",
  assumptions: [
    "The layout is simulated: what is checked is how the renderer uses measured boxes, not how a browser lays out MathML.",
    "A caret next to a placeholder or in an empty row is at the placeholder's middle.",
  ],
  parts: [
    part<Case>({
      name: "places",
      quick: 9000,
      thorough: 300000,
      arbitrary: base,
      check({ f, l }, o) {
        places(drawn(f, l), o);
        labels(f, o);
      },
    }),
    part<Case & { t: number[] }>({
      name: "hits",
      quick: 7500,
      thorough: 225000,
      arbitrary: fc.record({ f: formulaArb, l: layoutArb, t: fc.tuple(fc.integer({ min: 1, max: 49 }), fc.integer({ min: 51, max: 99 })).map((x) => x.map((i) => i / 100)) }),
      check({ f, l, t }, o) {
        const d = drawn(f, l);
        for (const { path, offset } of allPlaces(f)) clickAnywhere(d, place(d, path, offset), o);
        clickOnGlyphs(d, t, o);
        labels(f, o);
      },
    }),
    part<Case & { points: Pt[] }>({
      name: "clicks",
      quick: 7500,
      thorough: 225000,
      // As fractions of the drawing.
      arbitrary: fc.record({
        f: formulaArb,
        l: layoutArb,
        points: fc.array(fc.record({ x: fc.integer({ min: -20, max: 120 }), y: fc.integer({ min: -20, max: 120 }) }), { minLength: 1, maxLength: 12 }),
      }),
      check({ f, l, points }, o) {
        const d = drawn(f, l);
        const b = layout().rects.get(d.math)!;
        for (const p of points) clickAnywhere(d, { x: b.x + (p.x / 100) * b.width, y: b.y + (p.y / 100) * b.height }, o);
        labels(f, o);
      },
    }),
    part<Case>({
      name: "selections",
      quick: 6000,
      thorough: 180000,
      arbitrary: base,
      check({ f, l }, o) {
        selections(drawn(f, l), o);
        labels(f, o);
      },
    }),
  ],
};
