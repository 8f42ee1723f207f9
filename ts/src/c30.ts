// C30: the math-editor element: what it shows, and what input events do to it.
import fc from "fast-check";
import { MathEditor } from "repo/component/math-editor";
import { fromElement } from "repo/mathml/parsing";
import { DefaultParser, MathEditorBindings } from "repo/core/index";
import { RowIndices } from "repo/input-tree/row-indices";
import { renderer } from "./c25";
import { layoutArb } from "./c26";
import { escapeText, FElement, FHTMLElement, fakeDocument, layout, reactionErrors, setLayout, timers, type LayoutOptions, type Rect } from "./dom";
import { allPlaces, allRows, containerOf, isSymbol, nodeArb, show, type Node, type Path, type Row } from "./formula";
import { must, part, type Check, type Obs } from "./runner";
import { Refused, request } from "./server";

(globalThis as any).customElements.define("math-editor", MathEditor);

const KEYS = ["ArrowLeft", "ArrowRight", "ArrowUp", "ArrowDown"] as const;
export type Where = { place: number; dx: number } | { x: number; y: number };
export type Ev =
  | { e: "key"; key: string; code: string; ctrl: boolean; held?: boolean }
  | { e: "input"; type: string; data: string | null; now: boolean }
  | { e: "timers" }
  | { e: "copy" | "cut" }
  | { e: "paste"; from: "own" | "json" | "text" | "both"; row: Row; text: string }
  | { e: "drag"; at: Where; via: Where[]; to: Where; clicks: number; end: "pointerup" | "pointercancel"; second?: Where; device?: string }
  | { e: "hover" | "secondary"; at: Where }
  | { e: "mathml"; row: Row }
  | { e: "odd"; markup: string }
  | { e: "unset" | "focus" | "noclipboard" }
  | { e: "reconnect" };

// Formulas as MathML. Only what imports as itself.
export function mathml(row: Row): string {
  const out: string[] = [];
  for (const n of row.values) {
    if (isSymbol(n)) {
      out.push(`<mi>${escapeText(n.Symbol)}</mi>`);
      continue;
    }
    const [kind, { values, width }] = containerOf(n);
    const kids = values.map((v) => `<mrow>${mathml(v)}</mrow>`);
    if (kind === "Fraction") out.push(`<mfrac>${kids.join("")}</mfrac>`);
    else if (kind === "Root") out.push(`<mroot>${kids[1]}${kids[0]}</mroot>`);
    else if (kind === "Table") {
      let rows = "";
      for (let i = 0; i < kids.length; i += width) rows += `<mtr>${kids.slice(i, i + width).map((k) => `<mtd>${k}</mtd>`).join("")}</mtr>`;
      out.push(`<mtable>${rows}</mtable>`);
    } else {
      const base = out.pop() ?? "<mrow></mrow>";
      out.push(`<m${kind.toLowerCase()}>${base}${kids[0]}</m${kind.toLowerCase()}>`);
    }
  }
  return out.join("");
}

/** Markup with parts that are not supported or do not fit. */
const leafMarkup = fc.tuple(fc.constantFrom("mi", "mn", "mo", "mtext", "mspace", "mglyph", "foo"), fc.constantFrom("a", "12", " x ", "", "+", "<!--|-->b<!--c-->", "é")).map(([t, s]) => `<${t}>${s}</${t}>`);
const { tree: treeMarkup } = fc.letrec<{ tree: string; list: string }>((tie) => ({
  tree: fc.oneof(
    { depthSize: "small", withCrossShrink: true },
    leafMarkup,
    fc.tuple(fc.constantFrom("mrow", "mfrac", "msqrt", "mroot", "msup", "msub", "msubsup", "munderover", "munder", "mstyle", "menclose", "mtable", "mtr", "mtd", "bar"), tie("list")).map(([t, l]) => `<${t}>${l}</${t}>`)
  ),
  list: fc.array(tie("tree"), { maxLength: 3 }).map((l) => l.join("")),
}));
export const oddMarkup = fc.array(treeMarkup, { maxLength: 3 }).map((l) => l.join(""));
export function imported(markup: string): Node[] {
  const holder = fakeDocument.createElement("div");
  holder.innerHTML = markup;
  return fromElement(holder.firstElementChild as any).root.values as any;
}

const rowIn = (values: Node[]): Row => ({ values });
export const someNodes = fc
  .array(
    fc.oneof(
      { weight: 3, arbitrary: fc.constantFrom("a", "x", "2", "+", "=", "<", "s").map((s): Node[] => [{ Symbol: s }]) },
      // Words that are complete without having been typed.
      { weight: 1, arbitrary: fc.constantFrom("sqrt", "sum", ">=", "/").map((w) => [...w].map((s): Node => ({ Symbol: s }))) },
      { weight: 2, arbitrary: nodeArb(2).map((n) => [n]) }
    ),
    { maxLength: 4 }
  )
  .map((v) => rowIn(v.flat()));
/** What can be written in MathML without getting lost: spaces cannot. */
export const noSpaces = (r: Row): Row =>
  rowIn(r.values.flatMap((n): Node[] => (isSymbol(n) ? (n.Symbol.trim() === "" ? [] : [n]) : [{ Container: [containerOf(n)[0], { ...containerOf(n)[1], values: containerOf(n)[1].values.map(noSpaces) }] }])));

export const where: fc.Arbitrary<Where> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ place: fc.nat(200), dx: fc.constantFrom(0, 0, -1, 1, 3) }) },
  { weight: 1, arbitrary: fc.record({ x: fc.integer({ min: -20, max: 120 }), y: fc.integer({ min: -20, max: 120 }) }) }
);
/** While the button is held the pointer may go far away. */
const dragged = fc.oneof({ weight: 9, arbitrary: where }, { weight: 1, arbitrary: fc.record({ x: fc.constantFrom(-900, 50, 1000), y: fc.constantFrom(-900, 50, 1000) }) });
const typed = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom("a", "x", "1", "+", "=", " ", "!", ",", '"', "ü", "👍🏽", "é".normalize("NFD"), "\\") },
  { weight: 3, arbitrary: fc.constantFrom("/", "^", "_", "<=", ">=", "sum", "lim", "sqrt", "vector", "<", "s", "u", "m") },
  { weight: 1, arbitrary: fc.constantFrom("(", ")", "()", "12", "ab", "", "f(x)") }
);
const key = fc.oneof(
  { weight: 6, arbitrary: fc.record({ k: fc.constantFrom(...KEYS), held: fc.constantFrom(false, false, false, true) }).map(({ k, held }): Ev => ({ e: "key", key: k, code: k, ctrl: false, held })) },
  {
    weight: 3,
    // With the caps lock on, with a Cyrillic layout, held down.
    arbitrary: fc
      .record({ c: fc.constantFrom("KeyZ", "KeyY"), how: fc.constantFrom(0, 0, 0, 1, 2), held: fc.constantFrom(false, false, false, true) })
      .map(({ c, how, held }): Ev => ({ e: "key", key: how === 0 ? c[3].toLowerCase() : how === 1 ? c[3] : c === "KeyZ" ? "я" : "н", code: c, ctrl: true, held })),
  },
  { weight: 1, arbitrary: fc.constantFrom("KeyZ", "KeyY", "KeyA").map((c): Ev => ({ e: "key", key: c[3].toLowerCase(), code: c, ctrl: false })) },
  { weight: 1, arbitrary: fc.constantFrom("Shift", "Tab", "Home", "F1").map((k): Ev => ({ e: "key", key: k, code: k, ctrl: false })) }
);
export const event: fc.Arbitrary<Ev> = fc.oneof(
  { weight: 5, arbitrary: key },
  { weight: 7, arbitrary: fc.record({ e: fc.constant("input" as const), type: fc.constant("insertText"), data: typed, now: fc.boolean() }) },
  {
    weight: 3,
    arbitrary: fc.record({
      e: fc.constant("input" as const),
      type: fc.constantFrom("deleteContentBackward", "deleteContentForward", "deleteWordBackward", "deleteWordForward"),
      data: fc.constant(null),
      now: fc.boolean(),
    }),
  },
  { weight: 1, arbitrary: fc.constantFrom<Ev>({ e: "input", type: "insertCompositionText", data: "x", now: true }, { e: "input", type: "insertText", data: null, now: true }, { e: "input", type: "insertLineBreak", data: null, now: true }) },
  { weight: 1, arbitrary: fc.constant<Ev>({ e: "timers" }) },
  { weight: 2, arbitrary: fc.constantFrom<Ev>({ e: "copy" }, { e: "cut" }) },
  {
    weight: 2,
    arbitrary: fc.record({ e: fc.constant("paste" as const), from: fc.constantFrom("own" as const, "json" as const, "text" as const, "both" as const), row: someNodes, text: fc.constantFrom("json", "json", "json", "", "x", "{", "[1]", '[{"Symbol":"a"}]', "null") }),
  },
  {
    weight: 6,
    arbitrary: fc.record({
      e: fc.constant("drag" as const),
      at: where,
      via: fc.array(dragged, { maxLength: 2 }),
      to: dragged,
      clicks: fc.constantFrom(1, 1, 1, 2, 3),
      end: fc.constantFrom("pointerup" as const, "pointerup" as const, "pointercancel" as const),
      second: fc.option(where, { nil: undefined, freq: 3 }),
      device: fc.constantFrom("mouse", "mouse", "touch", "pen"),
    }),
  },
  { weight: 3, arbitrary: where.map((at): Ev => ({ e: "drag", at, via: [], to: at, clicks: 1, end: "pointerup" })) },
  { weight: 1, arbitrary: fc.record({ e: fc.constantFrom("hover" as const, "secondary" as const), at: where }) },
  { weight: 1, arbitrary: fc.oneof({ weight: 3, arbitrary: someNodes.map(noSpaces).map((row): Ev => ({ e: "mathml", row })) }, { weight: 1, arbitrary: fc.constantFrom<Ev>({ e: "reconnect" }, { e: "unset" }, { e: "focus" }, { e: "noclipboard" }) }, { weight: 1, arbitrary: oddMarkup.map((markup): Ev => ({ e: "odd", markup })) }) }
);
type Case = { start: Row | null; l: LayoutOptions; events: Ev[] };

const segmenter = new Intl.Segmenter("en", { granularity: "grapheme" });
const graphemes = (s: string) => [...segmenter.segment(s)].map((x) => x.segment);

const same = (a: unknown, b: unknown) => JSON.stringify(a) === JSON.stringify(b);
const under = (e: FElement): FElement[] => [e, ...(e.shadowRoot ? under(e.shadowRoot) : []), ...e.children.flatMap(under)];

export class Session {
  ref = new MathEditorBindings(DefaultParser) as any;
  el: any;
  /** The clipboard and the editors of a page; deferred input of all of them runs together. */
  page: { clipboard: Record<string, string>; sessions: Session[] } = { clipboard: {}, sessions: [this] };
  /** What happens elsewhere in the middle of a drag. */
  meanwhile = () => {};
  pending: Extract<Ev, { e: "input" }>[] = [];
  done: string[] = [];
  constructor(public o: Obs, el?: FElement) {
    this.el = el ?? fakeDocument.createElement("math-editor");
  }
  get clipboard() {
    return this.page.clipboard;
  }
  set clipboard(v: Record<string, string>) {
    this.page.clipboard = v;
  }
  get formula(): Row {
    return this.ref.get_input_tree();
  }
  get grid() {
    return "Grid" in this.ref.get_caret()[0];
  }
  mathmlSet(text: string) {
    this.el.setAttribute("mathml", text);
  }
  replaceAll(values: Node[]) {
    const end = this.formula.values.length;
    this.ref.splice_at_range({ row_indices: [], start: 0, end }, values);
  }
  /** Of the nodes inside of the element, the ones that take input and the drawing. */
  find(p: (e: FElement) => boolean): FElement {
    const found = under(this.el).filter(p);
    must(found.length === 1, () => `${found.length} elements instead of one`);
    return found[0];
  }
  get input() {
    return this.find((e) => e.localName === "textarea");
  }
  get math() {
    return this.find((e) => e.localName === "math");
  }
  get surface() {
    return this.math.parentNode as FElement;
  }

  /** A drawing of the formula of its own. */
  fresh<T>(use: (d: { result: any; math: FElement }) => T): T {
    const tree = request({ op: "Parse", row: this.formula.values });
    const result = renderer().renderAll({ errors: null, value: tree });
    const math = fakeDocument.createElement("math");
    math.append(...(result.getElement(RowIndices.default()).getElements() as any));
    fakeDocument.body.append(math);
    try {
      return use({ result, math });
    } finally {
      math.remove();
    }
  }
  point(w: Where): { x: number; y: number } {
    return this.fresh(({ result, math }) => {
      if ("place" in w) {
        const all = allPlaces(this.formula);
        const { path, offset } = all[w.place % all.length];
        const p = result.getElement(new RowIndices(path as any)).getCaretPosition(offset);
        return { x: p.x + w.dx, y: p.y };
      }
      const b = layout().rects.get(math)!;
      return { x: b.x + (w.x / 100) * b.width, y: b.y + (w.y / 100) * b.height };
    });
  }
  positionAt(p: { x: number; y: number }) {
    return this.fresh(({ result }) => {
      const r = result.getLayoutPosition(p);
      return { row_indices: r.indices.indices, offset: r.offset };
    });
  }

  send(target: FElement, type: string, event: object, mayRefuse = false) {
    const errors = target.dispatch(type, event);
    for (const e of errors) {
      if (mayRefuse && e instanceof Refused) continue;
      throw e;
    }
  }
  /** Outside of the editor a pointer is its own only if it was captured. */
  sendPointer(type: string, p: { x: number; y: number }, event: object) {
    const { left, top, right, bottom } = layout().rects.get(this.math)!;
    const outside = p.x < left - 50 || p.x > right + 50 || p.y < top - 50 || p.y > bottom + 50;
    const captured = under(this.el).some((e) => e.hasPointerCapture(1));
    this.o.labelIf(outside, "pointer outside");
    this.send(outside && !captured ? fakeDocument.body : this.surface, type, event);
  }
  runTimers() {
    while (timers.length) timers.shift()!();
    for (const s of this.page.sessions) s.runPending();
  }
  private runPending() {
    for (const { type, data } of this.pending.splice(0)) {
      if (type === "deleteContentBackward" || type === "deleteWordBackward") this.ref.remove_at_caret("Left", "Char");
      else if (type === "deleteContentForward" || type === "deleteWordForward") this.ref.remove_at_caret("Right", "Char");
      else if (type === "insertText" && data !== null) this.ref.insert_at_caret(graphemes(data));
    }
  }
  clip() {
    return { setData: (t: string, v: string) => (this.clipboard[t] = v), getData: (t: string) => this.clipboard[t] ?? "" };
  }

  apply(ev: Ev) {
    const { ref, o } = this;
    if (ev.e !== "input" && ev.e !== "key") this.runTimers();
    switch (ev.e) {
      case "key": {
        // Keys are handled at once, texts a moment later.
        this.send(this.input, "keydown", { key: ev.key, code: ev.code, ctrlKey: ev.ctrl, shiftKey: false, altKey: false, metaKey: false, repeat: ev.held ?? false });
        if ((KEYS as readonly string[]).includes(ev.key)) ref.move_caret(ev.key.slice(5), "Char");
        else if (ev.ctrl && ev.code === "KeyZ") ref.undo();
        else if (ev.ctrl && ev.code === "KeyY") ref.redo();
        return;
      }
      case "input":
        if (this.grid) return;
        this.send(this.input, "beforeinput", { inputType: ev.type, data: ev.data });
        this.pending.push(ev);
        if (ev.now) this.runTimers();
        return;
      case "timers":
        return;
      case "copy":
      case "cut": {
        if (this.grid) return;
        this.clipboard = {};
        let prevented = false;
        this.send(this.input, ev.e, { clipboardData: this.clip(), preventDefault() { prevented = true; } });
        // Otherwise the browser goes on to put its own selection there.
        must(prevented, () => `${ev.e} leaves the clipboard to the browser`);
        must(same(JSON.parse(this.clipboard["application/json"]), JSON.parse(ref.copy("JsonInputTree"))), () => `${ev.e} puts ${this.clipboard["application/json"]} into the clipboard`);
        if (ev.e === "cut") ref.remove_at_caret("Range", "Char");
        o.label(ev.e);
        return;
      }
      case "paste": {
        if (this.grid) return;
        const json = clipboardOf(ev.row.values);
        if (ev.from === "json") this.clipboard = { "application/json": json };
        else if (ev.from === "text") this.clipboard = { "text/plain": ev.text === "json" ? json : ev.text };
        else if (ev.from === "both") this.clipboard = { "application/json": json, "text/plain": "something else" };
        const text = this.clipboard["application/json"] || this.clipboard["text/plain"] || "";
        this.send(this.input, "paste", { clipboardData: this.clip() }, true);
        try {
          ref.paste(text, "JsonInputTree");
          o.label("paste");
        } catch (e) {
          if (!(e instanceof Refused)) throw e;
          o.label("refused paste");
        }
        return;
      }
      case "drag": {
        const pointer = (p: { x: number; y: number }, extra = {}) => ({ isPrimary: true, pointerId: 1, pointerType: ev.device ?? "mouse", clientX: p.x, clientY: p.y, detail: 0, button: 0, buttons: 1, ...extra });
        const from = this.point(ev.at);
        let at = this.positionAt(from);
        this.send(this.surface, "pointerdown", pointer(from));
        must(this.el.shadowRoot.contains(fakeDocument.activeElement) && fakeDocument.activeElement === this.input, () => `a click gives the keyboard to ${fakeDocument.activeElement?.localName}`);
        ref.start_selection(at, "Char");
        this.compare("pointerdown");
        at = this.positionAt(from);
        this.send(this.surface, "mousedown", pointer(from, { detail: ev.clicks }));
        if (ev.clicks > 1) ref.start_selection(at, ev.clicks === 2 ? "Word" : "Line");
        this.compare("mousedown");
        const another = (types: string[]) => {
          if (!ev.second) return;
          const p = this.point(ev.second);
          for (const t of types) this.send(this.surface, t, pointer(p, { isPrimary: false, pointerId: 2 }));
          this.compare("another pointer");
          o.label("another pointer during a drag");
        };
        another(["pointerdown", "pointermove"]);
        for (const w of ev.via) {
          const p = this.point(w);
          at = this.positionAt(p);
          this.sendPointer("pointermove", p, pointer(p));
          ref.extend_selection(at);
          this.compare("pointermove");
        }
        another(["pointermove", "pointerup"]);
        this.meanwhile();
        const p = this.point(ev.to);
        at = this.positionAt(p);
        this.sendPointer(ev.end, p, pointer(p));
        under(this.el).forEach((e) => e.releasePointerCapture(1));
        ref.extend_selection(at);
        ref.finish_selection();
        o.labelIf(this.grid, "block of cells");
        return;
      }
      case "hover": {
        const p = this.point(ev.at);
        this.send(this.surface, "pointermove", { isPrimary: true, pointerId: 1, clientX: p.x, clientY: p.y, detail: 0 });
        return;
      }
      case "secondary": {
        const p = this.point(ev.at);
        for (const t of ["pointerdown", "pointermove", "pointerup"]) this.send(this.surface, t, { isPrimary: false, pointerId: 2, clientX: p.x, clientY: p.y, detail: 0 });
        return;
      }
      case "mathml": {
        this.mathmlSet(`<math>${mathml(ev.row)}</math>`);
        this.replaceAll((this.source = ev.row.values.map(nfd)));
        o.label("mathml");
        return;
      }
      case "odd": {
        const text = `<math>${ev.markup}</math>`;
        this.mathmlSet(text);
        this.replaceAll((this.source = imported(text)));
        o.label("mathml with odd parts");
        return;
      }
      case "unset": {
        const was = this.el.hasAttribute("mathml");
        this.el.removeAttribute("mathml");
        if (was) this.replaceAll((this.source = []));
        return;
      }
      case "focus":
        this.send(this.surface, "focus", {});
        must(fakeDocument.activeElement === this.input, () => `focusing gives the keyboard to ${fakeDocument.activeElement?.localName}`);
        return;
      case "noclipboard":
        for (const t of ["copy", "cut", "paste"]) this.send(this.input, t, { clipboardData: null });
        return;
      case "reconnect": {
        const [up, next] = [this.el.parentNode, this.el.nextSibling];
        this.el.remove();
        up.insertBefore(this.el, next);
        this.replaceAll(this.source);
        return;
      }
    }
  }
  source: Node[] = [];
  end() {
    this.ref.free();
    this.el.mathEditor.free();
    this.el.remove();
  }

  compare(after: string) {
    const { ref, el, o } = this;
    const f = this.formula;
    const tell = (what: string) => () => `after ${this.done.join(", ")}${after ? ` (${after})` : ""}: ${what}`;
    const shown: Row = el.mathEditor.get_input_tree();
    must(same(shown, f), tell(`the formula is "${show(shown)}" instead of "${show(f)}"`));
    const caret = ref.get_caret();
    must(same(el.mathEditor.get_caret(), caret), tell(`the caret is ${JSON.stringify(el.mathEditor.get_caret())} instead of ${JSON.stringify(caret)}`));
    o.evals(2);
    const [error] = reactionErrors.splice(0);
    if (error) throw error;
    this.fresh(({ result, math }) => {
      must(this.math.childNodes.length === math.childNodes.length && same(this.math.children.map((c) => c.outerHTML), math.children.map((c) => c.outerHTML)), tell(`"${show(f)}" is shown as ${this.math.outerHTML}`));
      o.evals(1);
      if (!el.isConnected) return;
      const carets = under(el).filter((e) => e.classList.contains("caret"));
      const marks = under(el).filter((e) => e.classList.contains("caret-selection"));
      must(carets.length === caret.length, tell(`${carets.length} carets are shown for ${caret.length}`));
      const px = (v: unknown) => {
        const m = /^(-?[\d.e+-]+)px$/.exec(String(v));
        must(m, tell(`a length of ${JSON.stringify(v)}`));
        return parseFloat(m[1]);
      };
      const box = (e: FElement): { x: number; y: number; width: number; height: number } => {
        const up = layout().rects.get(e.parentNode!)!;
        return { x: px(e.style.left) + up.x, y: px(e.style.top) + up.y, width: px(e.style.width), height: px(e.style.height) };
      };
      const near = (a: number, b: number) => Math.abs(a - b) < 1e-6 * Math.max(1, Math.abs(a));
      if ("Row" in caret[0]) {
        const { row_indices, start, end } = caret[0].Row;
        const indices = new RowIndices(row_indices);
        const row = result.getElement(indices);
        const size = row.getCaretSize();
        const c = carets[0];
        const up = layout().rects.get(c.parentNode!)!;
        must(c.style.display !== "none", tell("the caret is not visible"));
        must(near(px(c.style.left) + up.x, row.getCaretPosition(end).x), tell(`the caret is shown at ${px(c.style.left) + up.x}, its place is at ${row.getCaretPosition(end).x}`));
        const bottom = px(c.style.top) + up.y + px(c.style.marginTop) + px(c.style.height);
        must(Math.abs(bottom - row.getCaretPosition(0).y) <= 0.2 * size, tell(`the caret stands at ${bottom}, the line at ${row.getCaretPosition(0).y}`));
        must(near(px(c.style.height), size), tell(`the caret is ${c.style.height} tall, texts ${size}`));
        must(marks.length === (start === end ? 0 : 1), tell(`${marks.length} selections are shown for ${start}..${end}`));
        if (start !== end) {
          const want = result.getViewportSelection({ indices, start, end }).rect;
          const got = box(marks[0]);
          must((["x", "y", "width", "height"] as const).every((k) => near(got[k], want[k])), tell(`the selection is shown at ${JSON.stringify(got)} instead of ${JSON.stringify(want)}`));
          o.label("selection");
        }
        o.evals(4);
      } else {
        const { row_indices, index, range } = caret[0].Grid;
        must(carets.every((c) => c.style.display === "none"), tell("a caret is visible next to a block of cells"));
        must(marks.length === 1, tell(`${marks.length} selections are shown for a block of cells`));
        const got = box(marks[0]);
        // The first and the last of the cells.
        for (const i of [range.start, range.end - 1]) {
          const b: Rect = result.getViewportRowBounds(new RowIndices([...row_indices, [index, i]])) as any;
          must(
            got.x <= b.x + 1e-6 && got.y <= b.y + 1e-6 && got.x + got.width >= b.x + b.width - 1e-6 && got.y + got.height >= b.y + b.height - 1e-6,
            tell(`the selection is shown at ${JSON.stringify(got)}, cell ${i} is at ${JSON.stringify(b)}`)
          );
        }
        o.evals(2);
      }
    });
  }
}
export function clearPage() {
  timers.length = 0;
  reactionErrors.length = 0;
  fakeDocument.body.replaceChildren();
  reactionErrors.length = 0;
}
/** What copying these nodes puts into the clipboard. */
function clipboardOf(values: Node[]): string {
  const e = new MathEditorBindings(DefaultParser) as any;
  try {
    e.splice_at_range({ row_indices: [], start: 0, end: 0 }, values);
    e.select_all();
    return e.copy("JsonInputTree");
  } finally {
    e.free();
  }
}
export const nfd = (n: Node): Node => (isSymbol(n) ? { Symbol: n.Symbol } : { Container: [containerOf(n)[0], { ...containerOf(n)[1], values: containerOf(n)[1].values.map((r) => rowIn(r.values.map(nfd))) }] });

export function describe(ev: Ev): string {
  switch (ev.e) {
    case "key": return (ev.ctrl ? "Ctrl+" : "") + ev.key;
    case "input": return `${ev.type}${ev.data === null ? "" : ` "${ev.data}"`}`;
    case "mathml": return `mathml="${show(ev.row)}"`;
    default: return ev.e;
  }
}

export const C30: Check = {
  id: "C30",
  rule:
    "The custom element, in a simulated document with simulated layout, is created (with or without a mathml attribute) and gets up to 14 events, sometimes up to 90: arrow and other keys, undo and redo, texts (symbols, words that complete, clusters of code points), deletions, copy, cut, paste (own, foreign and invalid clipboards), presses, drags and double clicks at places and points of the formula, other pointers, during a drag or not, drags far out of the editor (which it hears of only if it captured the pointer), changes of the attribute, removal and reinsertion; deferred input runs at once or after later keys. After every event compared with an editor driven directly. Non-trivial: the formula is not empty at the end and at least three events were applied; distinct by case.",
  assumptions: [
    "The WebAssembly bindings are replaced by the same calls to a native build; document, events and layout are simulated.",
    "Not generated: operations the editor has not implemented (input, deletion, copy, paste on a block of cells), a release without a press.",
  ],
  parts: [
    part<Case>({
      name: "events",
      quick: 5000,
      thorough: 120000,
      arbitrary: fc.record({ start: fc.option(someNodes.map(noSpaces), { nil: null, freq: 4 }), l: layoutArb, events: fc.oneof({ weight: 40, arbitrary: fc.array(event, { minLength: 1, maxLength: 14 }) }, { weight: 1, arbitrary: fc.array(event, { minLength: 30, maxLength: 90 }) }) }),
      check({ start, l, events }, o) {
        setLayout(l);
        clearPage();
        const s = new Session(o);
        try {
          if (start) {
            s.mathmlSet(`<math>${mathml(start)}</math>`);
            s.replaceAll(start.values.map(nfd));
            s.source = start.values.map(nfd);
          }
          s.compare("creation");
          fakeDocument.body.append(s.el);
          s.replaceAll(s.source);
          s.done.push("insertion");
          s.compare("");
          for (const ev of events) {
            s.done.push(describe(ev));
            s.apply(ev);
            s.compare("");
          }
          s.runTimers();
          s.done.push("timers");
          s.compare("");
          const f = s.formula;
          o.labelIf(allRows(f).length > 1, "has elements");
          o.nontrivialIf(f.values.length > 0 && events.length >= 3);
        } finally {
          s.end();
        }
      },
    }),
  ],
};
void FHTMLElement;
export type { Path };
