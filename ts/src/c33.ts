// C33: pages with several editors.
import fc from "fast-check";
import { type Ev, Session, clearPage, describe, event, imported, mathml, nfd, noSpaces, oddMarkup, someNodes, where } from "./c30";
import { layoutArb } from "./c26";
import { FElement, FText, fakeDocument, reactionErrors, setLayout, type LayoutOptions } from "./dom";
import { show, type Row } from "./formula";
import { must, part, type Check } from "./runner";

type Piece =
  | { p: "editor"; row: Row; attributes: string }
  | { p: "odd"; markup: string; attributes: string }
  | { p: "formula"; row: Row }
  | { p: "text"; text: string }
  | { p: "block"; tag: string; pieces: Piece[] };
type Case = { page: Piece[]; l: LayoutOptions; events: { who: number; other: number; ev: Ev }[] };

const attributes = fc.constantFrom(' data-editor="true"', ' data-editor=""', ' display="block" data-editor="true"', ' data-editor="true" tabindex="0" class="a b"', ' id="f" data-editor="1"');
const flat: fc.Arbitrary<Piece> = fc.oneof(
  { weight: 4, arbitrary: fc.record({ p: fc.constant("editor" as const), row: someNodes.map(noSpaces), attributes }) },
  { weight: 1, arbitrary: fc.record({ p: fc.constant("odd" as const), markup: oddMarkup, attributes }) },
  { weight: 2, arbitrary: fc.record({ p: fc.constant("formula" as const), row: someNodes.map(noSpaces) }) },
  { weight: 2, arbitrary: fc.record({ p: fc.constant("text" as const), text: fc.constantFrom("This is ", "\n", "π < 4 & so on") }) }
);
const piece: fc.Arbitrary<Piece> = fc.oneof(
  { weight: 3, arbitrary: flat },
  { weight: 1, arbitrary: fc.record({ p: fc.constant("block" as const), tag: fc.constantFrom("div", "p", "span"), pieces: fc.array(flat, { maxLength: 3 }) }) }
);

function build(pieces: Piece[], into: FElement) {
  for (const p of pieces) {
    if (p.p === "text") into.append(new FText(p.text));
    else if (p.p === "block") {
      const b = fakeDocument.createElement(p.tag);
      into.append(b);
      build(p.pieces, b);
    } else {
      const holder = fakeDocument.createElement("div");
      holder.innerHTML = p.p === "formula" ? `<math display="inline">${mathml(p.row)}</math>` : `<math${p.attributes}>${p.p === "odd" ? p.markup : mathml(p.row)}</math>`;
      into.append(...holder.childNodes);
    }
  }
}
/** Walks what was written and what is there now. */
function* editorsOf(pieces: Piece[], at: FElement): Generator<{ el: FElement; piece: Piece & { p: "editor" | "odd" } }> {
  must(at.childNodes.length === pieces.length, () => `${at.childNodes.length} instead of ${pieces.length} pieces in ${at.outerHTML}`);
  for (let i = 0; i < pieces.length; i++) {
    const [p, n] = [pieces[i], at.childNodes[i]];
    if (p.p === "text") must(n instanceof FText && n.data === p.text, () => `text ${JSON.stringify(p.text)} became ${JSON.stringify(n.textContent)}`);
    else {
      must(n instanceof FElement, () => "an element became something else");
      if (p.p === "block") {
        must(n.localName === p.tag, () => `${p.tag} became ${n.localName}`);
        yield* editorsOf(p.pieces, n);
      } else if (p.p === "formula") must(n.outerHTML === `<math display="inline">${mathml(p.row)}</math>`, () => `a formula that is not to be edited became ${n.outerHTML}`);
      else {
        must(n.localName === "math-editor", () => `instead of an editor there is ${n.outerHTML}`);
        yield { el: n, piece: p };
      }
    }
  }
}

const anEvent = fc.record({ who: fc.nat(7), other: fc.nat(7), ev: event });
let loads = 0;
async function load() {
  // As often as wanted, each time like the first time.
  const url = new URL(`./page.mjs?${loads++}`, import.meta.url.replace(/[^/]*$/, ""));
  await import(url.href);
}

export const C33: Check = {
  id: "C33",
  rule:
    "The page's script is run on a document of texts, formulas and formulas marked as editable, inside of other elements or not; then up to 12 events, each for one of the editors: those of C30, with pointers over another editor in the middle of drags, one clipboard for all. Before and after every event every editor on the page is compared with an editor of its own driven directly. Non-trivial: at least two editors, of which at least two got events; distinct by case.",
  assumptions: ["The same as of C30; the debugging panel is replaced by one that does nothing."],
  parts: [
    part<Case>({
      name: "pages",
      quick: 1600,
      thorough: 32000,
      arbitrary: fc.record({
        page: fc.array(piece, { minLength: 1, maxLength: 5 }),
        l: layoutArb,
        events: fc.oneof({ weight: 40, arbitrary: fc.array(anEvent, { maxLength: 12 }) }, { weight: 1, arbitrary: fc.array(anEvent, { minLength: 20, maxLength: 50 }) }),
      }),
      async check({ page, l, events }, o) {
        setLayout(l);
        clearPage();
        build(page, fakeDocument.body);
        await load();
        const [error] = reactionErrors.splice(0);
        if (error) throw error;
        const clipboard = {};
        const sessions: Session[] = [];
        const shared = { clipboard, sessions };
        try {
          for (const { el, piece } of editorsOf(page, fakeDocument.body)) {
            const s = new Session(o, el);
            s.page = shared;
            sessions.push(s);
            s.source = piece.p === "odd" ? imported(`<math>${piece.markup}</math>`) : piece.row.values.map(nfd);
            // Once for the attribute, once for being inserted.
            s.replaceAll(s.source);
            s.replaceAll(s.source);
            const shown = s.el.mathEditor.get_input_tree();
            must(JSON.stringify(shown.values) === JSON.stringify(s.source), () => `the editor starts with "${show(shown)}" instead of "${show({ values: s.source })}"`);
          }
          for (const s of sessions) s.done.push("loading");
          const all = () => sessions.forEach((s) => s.compare(""));
          all();
          o.labelIf(sessions.length > 1, "several editors");
          const used = new Set<Session>();
          if (sessions.length)
            for (const { who, other, ev } of events) {
              const s = sessions[who % sessions.length];
              const t = sessions[other % sessions.length];
              used.add(s);
              for (const x of sessions) x.done.push(x === s ? describe(ev) : `${describe(ev)} elsewhere`);
              s.meanwhile = () => {
                if (s === t) return;
                for (const e of ["pointermove", "mousedown"]) {
                  const p = t.point(ev.e === "drag" ? ev.at : { place: 0, dx: 0 });
                  t.send(t.surface, e, { isPrimary: true, pointerId: 7, clientX: p.x, clientY: p.y, detail: e === "mousedown" ? 2 : 0 });
                }
                t.compare("a pointer over another editor during a drag");
                o.label("two pointers");
              };
              s.apply(ev);
              all();
            }
          sessions[0]?.runTimers();
          all();
          o.nontrivialIf(used.size > 1);
        } finally {
          for (const s of sessions) s.end();
        }
      },
    }),
  ],
};
void where;
