// As much of a browser's document as the editor uses, with a simulated layout.
export type Rect = { x: number; y: number; width: number; height: number; left: number; right: number; top: number; bottom: number };
const rect = (x: number, y: number, width: number, height: number): Rect => ({
  x, y, width, height, left: x, right: x + width, top: y, bottom: y + height,
});

const MATHML = "http://www.w3.org/1998/Math/MathML";
const HTML = "http://www.w3.org/1999/xhtml";

const listOf = <T extends object>(v: T[]) => Object.assign(v, { item: (i: number) => v[i] ?? null });
type Listener = { f: any; once: boolean };

/** What custom elements are told; what they throw is reported, like a browser does. */
export const reactionErrors: unknown[] = [];
function react(e: any, name: string, ...args: unknown[]) {
  if (typeof e[name] !== "function") return;
  try {
    e[name](...args);
  } catch (x) {
    reactionErrors.push(x);
  }
}
function reactBelow(n: FNode, name: string) {
  if (!(n instanceof FElement)) return;
  react(n, name);
  if (n.shadowRoot) [...n.shadowRoot.childNodes].forEach((c) => reactBelow(c, name));
  [...n.childNodes].forEach((c) => reactBelow(c, name));
}

export class FNode {
  static readonly ELEMENT_NODE = 1;
  static readonly TEXT_NODE = 3;
  static readonly COMMENT_NODE = 8;
  static readonly DOCUMENT_NODE = 9;
  static readonly DOCUMENT_FRAGMENT_NODE = 11;
  static readonly DOCUMENT_POSITION_DISCONNECTED = 1;
  static readonly DOCUMENT_POSITION_PRECEDING = 2;
  static readonly DOCUMENT_POSITION_FOLLOWING = 4;
  static readonly DOCUMENT_POSITION_CONTAINS = 8;
  static readonly DOCUMENT_POSITION_CONTAINED_BY = 16;
  readonly ELEMENT_NODE = 1;
  readonly TEXT_NODE = 3;
  parentNode: FElement | null = null;
  childNodes: FNode[] = listOf([]);
  private listeners = new Map<string, Listener[]>();

  get nodeType(): number { return 1; }
  get nodeName(): string { return "#node"; }
  get nodeValue(): string | null { return null; }
  set nodeValue(_: string | null) {}
  get ownerDocument() { return fakeDocument; }
  get isConnected(): boolean {
    return this.getRootNode({ composed: true }) === fakeDocument.documentElement;
  }
  getRootNode(o?: { composed?: boolean }): FNode {
    let n: FNode = this;
    for (;;) {
      const up: FNode | null = n.parentNode ?? (o?.composed ? ((n as any).host as FNode | null) : null) ?? null;
      if (!up) return n;
      n = up;
    }
  }
  get parentElement(): FElement | null {
    return this.parentNode && this.parentNode.nodeType === 1 ? this.parentNode : null;
  }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  private sibling(by: number, elements: boolean) {
    const all: FNode[] = this.parentNode ? (elements ? this.parentNode.children : this.parentNode.childNodes) : [];
    if (!all.includes(this)) return null;
    return all[all.indexOf(this) + by] ?? null;
  }
  get nextSibling() { return this.sibling(1, false); }
  get previousSibling() { return this.sibling(-1, false); }
  get nextElementSibling() { return this.sibling(1, true); }
  get previousElementSibling() { return this.sibling(-1, true); }
  hasChildNodes() { return this.childNodes.length > 0; }
  contains(n: FNode | null) {
    for (; n; n = n.parentNode) if (n === this) return true;
    return false;
  }
  isSameNode(n: FNode | null) { return this === n; }
  isEqualNode(n: FNode | null) { return !!n && markup(this) === markup(n); }
  compareDocumentPosition(n: FNode): number {
    if (n === this) return 0;
    const chain = (x: FNode) => {
      const c: FNode[] = [x];
      while (c[0].parentNode) c.unshift(c[0].parentNode);
      return c;
    };
    const [a, b] = [chain(this), chain(n)];
    if (a[0] !== b[0]) return 1;
    let i = 0;
    while (i < a.length && i < b.length && a[i] === b[i]) i++;
    if (i === a.length) return 16 | 4;
    if (i === b.length) return 8 | 2;
    return a[i - 1].childNodes.indexOf(a[i]) < a[i - 1].childNodes.indexOf(b[i]) ? 4 : 2;
  }
  normalize() {}
  cloneNode(deep = false): FNode {
    return this.cloneShallow(deep);
  }
  protected cloneShallow(deep: boolean): FNode {
    const n = this.emptyCopy();
    if (deep) this.childNodes.forEach((c) => n.insertBefore(c.cloneNode(true), null));
    return n;
  }
  protected emptyCopy(): FNode {
    return new (this.constructor as any)();
  }
  get textContent(): string {
    return this.childNodes.map((c) => (c instanceof FComment ? "" : c.textContent)).join("");
  }
  set textContent(v: string) {
    (this as any).replaceChildren(...(v === "" || v === null ? [] : [v]));
  }
  insertBefore<T extends FNode>(n: T, before: FNode | null): T {
    if (!(n instanceof FNode)) throw new TypeError("not a node");
    if (before && before.parentNode !== (this as any)) throw new Error("NotFoundError");
    if (this instanceof FText) throw new Error("HierarchyRequestError");
    for (let up: FNode | null = this; up; up = up.parentNode) {
      if (up === n) throw new Error("HierarchyRequestError");
    }
    if (n instanceof FFragment && !n.isShadow) {
      [...n.childNodes].forEach((c) => this.insertBefore(c, before));
      return n;
    }
    if ((n as FNode) === before) return n;
    n.remove();
    n.parentNode = this as any;
    this.childNodes.splice(before ? this.childNodes.indexOf(before) : this.childNodes.length, 0, n);
    changed();
    if (n.isConnected) reactBelow(n, "connectedCallback");
    return n;
  }
  appendChild<T extends FNode>(n: T): T {
    return this.insertBefore(n, null);
  }
  removeChild<T extends FNode>(n: T): T {
    if (n.parentNode !== (this as any)) throw new Error("NotFoundError");
    n.remove();
    return n;
  }
  replaceChild<T extends FNode>(n: FNode, old: T): T {
    if (old.parentNode !== (this as any)) throw new Error("NotFoundError");
    old.replaceWith(n);
    return old;
  }
  before(...ns: (FNode | string)[]) {
    ns.forEach((n) => this.parentNode?.insertBefore(asNode(n), this));
  }
  after(...ns: (FNode | string)[]) {
    const next = this.nextSibling;
    ns.forEach((n) => this.parentNode?.insertBefore(asNode(n), next));
  }
  replaceWith(...ns: (FNode | string)[]) {
    const p = this.parentNode;
    const next = this.nextSibling;
    if (!p) return;
    this.remove();
    ns.forEach((n) => p.insertBefore(asNode(n), next));
  }
  remove() {
    if (!this.parentNode) return;
    const p = this.parentNode;
    const connected = this.isConnected;
    p.childNodes.splice(p.childNodes.indexOf(this), 1);
    this.parentNode = null;
    changed();
    if (connected) reactBelow(this, "disconnectedCallback");
  }
  addEventListener(type: string, f: any, options?: boolean | { once?: boolean; signal?: AbortSignal }) {
    const l = this.listeners.get(type) ?? [];
    if (!l.some((x) => x.f === f)) l.push({ f, once: typeof options === "object" && !!options.once });
    this.listeners.set(type, l);
    if (typeof options === "object") options.signal?.addEventListener("abort", () => this.removeEventListener(type, f));
  }
  removeEventListener(type: string, f: any) {
    this.listeners.set(type, (this.listeners.get(type) ?? []).filter((x) => x.f !== f));
  }
  /** Runs the listeners here and further out; what they throw is reported, like a browser does, and the others still run. */
  dispatch(type: string, event: object): unknown[] {
    const errors: unknown[] = [];
    const path: FNode[] = [];
    for (let n: FNode | null = this; n; n = n.parentNode ?? (n as any).host ?? null) path.push(n);
    let stopped = 0;
    const e: any = {
      type, target: this, currentTarget: null, defaultPrevented: false, bubbles: !["focus", "blur"].includes(type), cancelable: true, composed: true,
      isTrusted: true, timeStamp: 0, eventPhase: 2,
      composedPath: () => path,
      preventDefault() { this.defaultPrevented = true; },
      stopPropagation() { stopped = Math.max(stopped, 1); },
      stopImmediatePropagation() { stopped = 2; },
      ...event,
    };
    for (const n of path) {
      e.currentTarget = n;
      for (const l of [...(n.listeners.get(type) ?? []), ...(typeof (n as any)["on" + type] === "function" ? [{ f: (n as any)["on" + type], once: false }] : [])]) {
        if (l.once) n.removeEventListener(type, l.f);
        try {
          if (typeof l.f === "function") l.f.call(n, e);
          else l.f.handleEvent(e);
        } catch (x) {
          errors.push(x);
        }
        if (stopped === 2) break;
      }
      if (stopped || !e.bubbles) break;
    }
    return errors;
  }
  dispatchEvent(e: any) {
    const errors = this.dispatch(e.type, { detail: e.detail });
    if (errors.length) throw errors[0];
    return true;
  }
}
function asNode(n: FNode | string): FNode {
  return n instanceof FNode ? n : new FText(String(n));
}
export class FText extends FNode {
  #data: string;
  constructor(data: string = "") {
    super();
    this.#data = String(data);
  }
  get nodeType() { return 3; }
  get nodeName() { return "#text"; }
  get data() { return this.#data; }
  set data(v: string) {
    this.#data = v;
    changed();
  }
  get textContent() { return this.#data; }
  set textContent(v: string) { this.data = v; }
  get nodeValue() { return this.#data; }
  set nodeValue(v: string) { this.data = v; }
  get wholeText() { return this.#data; }
  get length() { return this.#data.length; }
  appendData(v: string) { this.data += v; }
  protected emptyCopy() { return new FText(this.#data); }
}
class ClassList {
  private names = new Set<string>();
  get length() { return this.names.size; }
  get value() { return this.toString(); }
  set value(v: string) { this.set(v); }
  item(i: number) { return [...this.names][i] ?? null; }
  add(...n: string[]) { n.forEach((x) => this.names.add(this.valid(x))); }
  remove(...n: string[]) { n.forEach((x) => this.names.delete(this.valid(x))); }
  contains(n: string) { return this.names.has(n); }
  toggle(n: string, force?: boolean) {
    const on = force ?? !this.names.has(n);
    if (on) this.add(n);
    else this.remove(n);
    return on;
  }
  replace(a: string, b: string) {
    if (!this.names.has(a)) return false;
    this.remove(a);
    this.add(b);
    return true;
  }
  forEach(f: (n: string) => void) { this.names.forEach((n) => f(n)); }
  values() { return this.names.values(); }
  [Symbol.iterator]() { return this.names.values(); }
  private valid(n: string) {
    if (n === "" || /\s/.test(n)) throw new Error("not a class name");
    return n;
  }
  set(v: string) { this.names = new Set(v.split(/\s+/).filter((x) => x)); }
  toString() { return [...this.names].join(" "); }
}
const camel = (p: string) => (p.startsWith("--") ? p : p.replace(/-([a-z])/g, (_, c) => c.toUpperCase()));
class Style {
  [name: string]: any;
  setProperty(p: string, v: any) { this[camel(p)] = v === null ? "" : String(v); }
  getPropertyValue(p: string) { return this[camel(p)] ?? ""; }
  removeProperty(p: string) {
    const old = this.getPropertyValue(p);
    delete this[camel(p)];
    return old;
  }
  set cssText(v: string) {
    Object.keys(this).forEach((k) => delete this[k]);
    v.split(";").forEach((d) => {
      const i = d.indexOf(":");
      if (i > 0) this.setProperty(d.slice(0, i).trim(), d.slice(i + 1).trim());
    });
  }
  get cssText() { return Object.entries(this).map(([k, v]) => `${k}: ${v};`).join(" "); }
}
/** A single part of a selector: name, #id, .class, [attribute], [attribute="value"]. */
function matchesOne(e: FElement, s: string): boolean {
  const parts = s.match(/^\*|^[\w-]+|[.#][\w-]+|\[[\w-]+(?:="[^"]*")?\]/g);
  if (!parts || parts.join("") !== s) throw new Error("selector: " + s);
  return parts.every((p) => {
    if (p === "*") return true;
    if (p[0] === ".") return e.classList.contains(p.slice(1));
    if (p[0] === "#") return e.id === p.slice(1);
    if (p[0] === "[") {
      const m = /^\[([\w-]+)(?:="([^"]*)")?\]$/.exec(p)!;
      return m[2] === undefined ? e.hasAttribute(m[1]) : e.getAttribute(m[1]) === m[2];
    }
    return e.localName === p.toLowerCase();
  });
}
function matchesSelector(e: FElement, selector: string): boolean {
  return selector.split(",").some((s) => {
    const steps = s.trim().replace(/\s*>\s*/g, " > ").split(/\s+/);
    const go = (e: FElement | null, i: number): boolean => {
      if (!e || !matchesOne(e, steps[i])) return false;
      if (i === 0) return true;
      if (steps[i - 1] === ">") return go(e.parentElement, i - 2);
      for (let up = e.parentElement; up; up = up.parentElement) if (go(up, i - 1)) return true;
      return false;
    };
    return go(e, steps.length - 1);
  });
}
export class FElement extends FNode {
  tagName = "";
  namespaceURI: string | null = HTML;
  attributes = new Map<string, string>();
  #style = new Style();
  classList = new ClassList();
  shadowRoot: FElement | null = null;
  host: FElement | null = null;

  get nodeName(): string { return this.tagName; }
  get style(): any { return this.#style; }
  set style(v: any) { this.#style.cssText = String(v); }
  get className() { return this.classList.toString(); }
  set className(v: string) { this.classList.set(v); }
  get id() { return this.getAttribute("id") ?? ""; }
  set id(v: string) { this.setAttribute("id", v); }
  get localName() { return this.tagName.toLowerCase(); }
  get dataset(): any {
    const name = (k: string) => "data-" + k.replace(/[A-Z]/g, (c) => "-" + c.toLowerCase());
    return new Proxy({}, {
      get: (_, k) => this.attributes.get(name(String(k))),
      set: (_, k, v) => (this.setAttribute(name(String(k)), v), true),
      has: (_, k) => this.attributes.has(name(String(k))),
      deleteProperty: (_, k) => (this.removeAttribute(name(String(k))), true),
    });
  }
  get children(): FElement[] {
    return listOf(this.childNodes.filter((c): c is FElement => c instanceof FElement));
  }
  get childElementCount() { return this.children.length; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { return this.children[this.children.length - 1] ?? null; }
  append(...ns: (FNode | string)[]) {
    ns.forEach((n) => this.insertBefore(asNode(n), null));
  }
  prepend(...ns: (FNode | string)[]) {
    const first = this.firstChild;
    ns.forEach((n) => this.insertBefore(asNode(n), first));
  }
  replaceChildren(...ns: (FNode | string)[]) {
    [...this.childNodes].forEach((c) => c.remove());
    this.append(...ns);
  }
  insertAdjacentElement(where: string, n: FElement) {
    if (where === "beforebegin") this.before(n);
    else if (where === "afterbegin") this.prepend(n);
    else if (where === "beforeend") this.append(n);
    else this.after(n);
    return n;
  }
  insertAdjacentText(where: string, s: string) {
    this.insertAdjacentElement(where, new FText(s) as any);
  }
  insertAdjacentHTML(where: string, s: string) {
    const f = new FFragment();
    f.append(...parseMarkup(s));
    this.insertAdjacentElement(where, f);
  }
  setAttribute(k: string, v: string) {
    const old = this.getAttribute(k);
    if (k === "class") this.className = String(v);
    else if (k === "style") this.style = String(v);
    else this.attributes.set(k, String(v));
    changed();
    this.attributeChanged(k, old);
  }
  private attributeChanged(k: string, old: string | null) {
    if ((this.constructor as any).observedAttributes?.includes(k)) react(this, "attributeChangedCallback", k, old, this.getAttribute(k), null);
  }
  setAttributeNS(_: string | null, k: string, v: string) { this.setAttribute(k, v); }
  getAttribute(k: string): string | null {
    if (k === "class" && this.classList.length) return this.className;
    return this.attributes.get(k) ?? null;
  }
  getAttributeNS(_: string | null, k: string) { return this.getAttribute(k); }
  getAttributeNames() { return [...this.attributes.keys()]; }
  hasAttribute(k: string) { return this.getAttribute(k) !== null; }
  hasAttributes() { return this.attributes.size > 0; }
  removeAttribute(k: string) {
    const old = this.getAttribute(k);
    if (old === null) return;
    if (k === "class") this.className = "";
    this.attributes.delete(k);
    changed();
    this.attributeChanged(k, old);
  }
  toggleAttribute(k: string, force?: boolean) {
    const on = force ?? !this.hasAttribute(k);
    if (on) this.setAttribute(k, this.getAttribute(k) ?? "");
    else this.removeAttribute(k);
    return on;
  }
  private below(): FElement[] {
    return this.children.flatMap((c) => [c, ...c.below()]);
  }
  querySelectorAll(s: string) { return listOf(this.below().filter((e) => matchesSelector(e, s))); }
  querySelector(s: string) { return this.querySelectorAll(s)[0] ?? null; }
  getElementsByTagName(s: string) { return this.querySelectorAll(s); }
  getElementsByClassName(s: string) { return this.querySelectorAll("." + s.trim().split(/\s+/).join(".")); }
  getElementById(s: string) { return this.below().find((e) => e.id === s) ?? null; }
  matches(s: string) { return matchesSelector(this, s); }
  closest(s: string): FElement | null {
    for (let e: FElement | null = this; e; e = e.parentElement) if (e.matches(s)) return e;
    return null;
  }
  attachShadow(_: object) {
    const root = new FFragment();
    root.isShadow = true;
    root.tagName = "#shadow-root";
    root.host = this;
    return (this.shadowRoot = root);
  }
  /** Of a shadow root; style sheets are of no account here. */
  adoptedStyleSheets: unknown[] = [];
  focus() {
    fakeDocument.activeElement = this;
  }
  blur() {}
  click() { this.dispatch("click", {}); }
  scrollIntoView() {}
  #captured = new Set<number>();
  hasPointerCapture(id: number) { return this.#captured.has(id); }
  setPointerCapture(id: number) { this.#captured.add(id); }
  releasePointerCapture(id: number) { this.#captured.delete(id); }
  getBoundingClientRect(): Rect {
    return layout().rects.get(this) ?? rect(0, 0, 0, 0);
  }
  getClientRects(): Rect[] { return listOf([this.getBoundingClientRect()]); }
  get clientWidth() { return this.getBoundingClientRect().width; }
  get clientHeight() { return this.getBoundingClientRect().height; }
  get offsetWidth() { return this.getBoundingClientRect().width; }
  get offsetHeight() { return this.getBoundingClientRect().height; }
  get scrollLeft() { return 0; }
  get scrollTop() { return 0; }
  get clientLeft() { return 0; }
  get clientTop() { return 0; }
  set innerText(v: string) { this.textContent = v; }
  get innerText() { return this.textContent; }
  get innerHTML() { return this.childNodes.map(markup).join(""); }
  set innerHTML(v: string) {
    this.replaceChildren(...parseMarkup(v));
  }
  get outerHTML() { return markup(this); }
  protected emptyCopy(): FNode {
    const e = this.namespaceURI === MATHML ? new FMathMLElement() : fakeDocument.createElement(this.localName || "div");
    e.tagName = this.tagName;
    e.namespaceURI = this.namespaceURI;
    this.attributes.forEach((v, k) => e.attributes.set(k, v));
    e.className = this.className;
    Object.assign(e.style, this.style);
    return e;
  }
}
/** A fragment or shadow root. */
export class FFragment extends FElement {
  isShadow = false;
  tagName = "#document-fragment";
  get nodeType() { return 11; }
  protected emptyCopy(): FNode { return new FFragment(); }
}
export class FHTMLElement extends FElement {
  tabIndex = -1;
  hidden = false;
  value = "";
}
export class FMathMLElement extends FElement {
  namespaceURI: string | null = MATHML;
  tabIndex = -1;
}
class FTemplate extends FHTMLElement {
  content = new FFragment();
  get innerHTML() { return this.content.innerHTML; }
  set innerHTML(v: string) {
    this.content.replaceChildren(...parseMarkup(v));
  }
}
class FComment extends FText {
  get nodeType() { return 8; }
}

class FRange {
  private start: [FNode, number] | null = null;
  private end: [FNode, number] | null = null;
  private size(n: FNode) { return n instanceof FText ? n.length : n.childNodes.length; }
  private index(n: FNode): [FNode, number] {
    if (!n.parentNode) throw new Error("InvalidNodeTypeError");
    return [n.parentNode, n.parentNode.childNodes.indexOf(n)];
  }
  private later(a: [FNode, number], b: [FNode, number]) {
    return a[0] === b[0] && a[1] > b[1];
  }
  get startContainer() { return this.start?.[0] ?? null; }
  get endContainer() { return this.end?.[0] ?? null; }
  get startOffset() { return this.start?.[1] ?? 0; }
  get endOffset() { return this.end?.[1] ?? 0; }
  get collapsed() { return !this.start || (this.start[0] === this.end![0] && this.start[1] === this.end![1]); }
  setStart(n: FNode, i: number) {
    if (i > this.size(n)) throw new Error("IndexSizeError");
    this.start = [n, i];
    if (!this.end || this.end[0] !== n || this.later(this.start, this.end)) this.end = this.start;
  }
  setEnd(n: FNode, i: number) {
    if (i > this.size(n)) throw new Error("IndexSizeError");
    this.end = [n, i];
    if (!this.start || this.later(this.start, this.end)) this.start = this.end;
  }
  setStartBefore(n: FNode) { this.setStart(...this.index(n)); }
  setEndAfter(n: FNode) { this.setEnd(this.index(n)[0], this.index(n)[1] + 1); }
  setStartAfter(n: FNode) { this.setStart(this.index(n)[0], this.index(n)[1] + 1); }
  setEndBefore(n: FNode) { this.setEnd(...this.index(n)); }
  selectNode(n: FNode) {
    const [p, i] = this.index(n);
    this.start = [p, i];
    this.end = [p, i + 1];
  }
  selectNodeContents(n: FNode) {
    this.start = [n, 0];
    this.end = [n, this.size(n)];
  }
  collapse(toStart = false) {
    if (toStart) this.end = this.start;
    else this.start = this.end;
  }
  detach() {}
  getClientRects(): Rect[] {
    if (!this.start || !this.end) return listOf([] as Rect[]);
    const at = layout().rects;
    const [n, a] = this.start;
    const [m, b] = this.end;
    if (n === m && n instanceof FText) {
      const r = at.get(n);
      if (!r) return listOf([] as Rect[]);
      const w = n.length ? r.width / n.length : 0;
      return listOf([rect(r.x + a * w, r.y, (b - a) * w, r.height)]);
    }
    const all: FNode[] = n === m ? n.childNodes.slice(a, b) : [n, m];
    return listOf(all.map((x) => at.get(x)).filter((x): x is Rect => !!x));
  }
  getBoundingClientRect(): Rect {
    const all = this.getClientRects();
    if (!all.length) return rect(0, 0, 0, 0);
    if (all.length === 1) return all[0];
    const x = Math.min(...all.map((r) => r.left));
    const y = Math.min(...all.map((r) => r.top));
    return rect(x, y, Math.max(...all.map((r) => r.right)) - x, Math.max(...all.map((r) => r.bottom)) - y);
  }
}

const customElements = new Map<string, any>();
const onDocument = new FNode();
export const fakeDocument = {
  nodeType: 9,
  documentElement: null as any as FHTMLElement,
  body: null as any as FHTMLElement,
  activeElement: null as FElement | null,
  adoptedStyleSheets: [] as unknown[],
  createElement(tag: string): FElement {
    const C = customElements.get(tag.toLowerCase());
    const e = C ? new C() : tag.toLowerCase() === "template" ? new FTemplate() : new FHTMLElement();
    // A custom element may not give itself contents before it is handed out.
    if (C && (e.childNodes.length || e.attributes.size || e.classList.length || Object.keys(e.style).length)) throw new Error("NotSupportedError");
    e.tagName = tag.toUpperCase();
    return e;
  },
  createElementNS(ns: string, tag: string): FElement {
    if (ns === HTML) return fakeDocument.createElement(tag);
    const e = ns === MATHML ? new FMathMLElement() : new FElement();
    e.namespaceURI = ns;
    e.tagName = tag;
    return e;
  },
  createTextNode: (s: string) => new FText(String(s)),
  createComment: (s: string) => new FComment(s),
  createDocumentFragment: () => new FFragment(),
  createRange: () => new FRange(),
  importNode: (n: FNode, deep?: boolean) => n.cloneNode(deep),
  adoptNode: (n: FNode) => (n.remove(), n),
  querySelectorAll: (s: string) => fakeDocument.documentElement.querySelectorAll(s),
  querySelector: (s: string) => fakeDocument.documentElement.querySelector(s),
  getElementById: (s: string) => fakeDocument.documentElement.getElementById(s),
  addEventListener: (t: string, f: any, o?: any) => onDocument.addEventListener(t, f, o),
  removeEventListener: (t: string, f: any) => onDocument.removeEventListener(t, f),
  contains: (n: FNode | null) => fakeDocument.documentElement.contains(n),
  hasFocus: () => true,
};
fakeDocument.documentElement = fakeDocument.createElement("html") as FHTMLElement;
fakeDocument.body = fakeDocument.createElement("body") as FHTMLElement;
fakeDocument.documentElement.appendChild(fakeDocument.body);

/** Timers, run by the test. */
export const timers: (() => void)[] = [];

class Observer {
  observe() {}
  unobserve() {}
  disconnect() {}
  takeRecords() { return []; }
}
class FDOMRect {
  constructor(public x = 0, public y = 0, public width = 0, public height = 0) {}
  static fromRect(r: any) { return new FDOMRect(r.x, r.y, r.width, r.height); }
  get left() { return Math.min(this.x, this.x + this.width); }
  get right() { return Math.max(this.x, this.x + this.width); }
  get top() { return Math.min(this.y, this.y + this.height); }
  get bottom() { return Math.max(this.y, this.y + this.height); }
}
class FDOMPoint {
  constructor(public x = 0, public y = 0, public z = 0, public w = 1) {}
}

export function install() {
  const g = globalThis as any;
  g.document = fakeDocument;
  g.Node = FNode;
  g.Text = FText;
  g.Comment = FComment;
  g.CharacterData = FText;
  g.Element = FElement;
  g.HTMLElement = FHTMLElement;
  g.HTMLDivElement = g.HTMLSpanElement = g.HTMLTextAreaElement = g.HTMLUListElement = g.HTMLLIElement = g.HTMLStyleElement = FHTMLElement;
  g.HTMLTemplateElement = FTemplate;
  g.DocumentFragment = FFragment;
  g.ShadowRoot = FFragment;
  g.MathMLElement = FMathMLElement;
  g.Range = FRange;
  g.DOMRect = g.DOMRectReadOnly = FDOMRect;
  g.DOMPoint = g.DOMPointReadOnly = FDOMPoint;
  g.MutationObserver = g.ResizeObserver = g.IntersectionObserver = Observer;
  g.CSSStyleSheet = class {
    replaceSync() {}
    insertRule() { return 0; }
  };
  g.customElements = {
    define: (n: string, c: any) => customElements.set(n, c),
    get: (n: string) => customElements.get(n),
    whenDefined: async (n: string) => customElements.get(n),
  };
  g.window = g.self = g;
  g.devicePixelRatio = 1;
  g.getComputedStyle = (e: FElement) => {
    const fs = layout().fonts.get(e);
    const size = fs !== undefined ? `${fs}px` : "";
    return {
      getPropertyValue: (p: string) => (p === "font-size" ? size : e.style.getPropertyValue(p)),
      fontSize: size,
    };
  };
  // A cancelled timer stays in the list and does nothing.
  const ids = new Map<number, () => void>();
  let next = 1;
  const later = (f: (...a: any[]) => void, args: any[]) => {
    const id = next++;
    ids.set(id, () => f(...args));
    timers.push(() => {
      const run = ids.get(id);
      ids.delete(id);
      run?.();
    });
    return id;
  };
  g.setTimeout = (f: any, _ms?: number, ...args: any[]) => later(f, args);
  g.clearTimeout = (id: number) => void ids.delete(id);
  g.requestAnimationFrame = (f: any) => later(f, [0]);
  g.cancelAnimationFrame = g.clearTimeout;
  const onWindow = new FNode();
  g.addEventListener = (t: string, f: any, o?: any) => onWindow.addEventListener(t, f, o);
  g.removeEventListener = (t: string, f: any) => onWindow.removeEventListener(t, f);
}

// Markup

export function escapeText(s: string) {
  return s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;").replace(/"/g, "&quot;");
}
export function markup(n: FNode): string {
  if (n instanceof FComment) return `<!--${n.data}-->`;
  if (n instanceof FText) return escapeText(n.data);
  const e = n as FElement;
  if (e instanceof FFragment) return e.innerHTML;
  const attrs = [...e.attributes].map(([k, v]) => ` ${k}="${escapeText(v)}"`).join("");
  return `<${e.localName}${attrs}>${e.childNodes.map(markup).join("")}</${e.localName}>`;
}
function unescapeText(s: string) {
  return s.replace(/&lt;/g, "<").replace(/&gt;/g, ">").replace(/&quot;/g, '"').replace(/&amp;/g, "&");
}
function parseMarkup(s: string): FNode[] {
  const root = new FFragment();
  const stack: FElement[] = [root];
  const token = /<\/([\w-]+)\s*>|<!--([^]*?)-->|<([\w-]+)((?:\s+[\w-]+="[^"]*")*)\s*(\/?)>|([^<]+)/gy;
  let m: RegExpExecArray | null;
  let end = 0;
  while ((m = token.exec(s))) {
    end = token.lastIndex;
    const top = stack[stack.length - 1];
    if (m[1]) {
      if (stack.length < 2 || top.localName !== m[1]) throw new Error("markup: unexpected </" + m[1]);
      stack.pop();
    } else if (m[2] !== undefined) {
      top.appendChild(new FComment(m[2]));
    } else if (m[3]) {
      const inMath = m[3] === "math" || stack.some((e) => e.localName === "math");
      const e = inMath ? fakeDocument.createElementNS(MATHML, m[3]) : fakeDocument.createElement(m[3]);
      for (const a of m[4].matchAll(/([\w-]+)="([^"]*)"/g)) e.setAttribute(a[1], unescapeText(a[2]));
      top.appendChild(e);
      if (!m[5]) stack.push(e);
    } else {
      top.appendChild(new FText(unescapeText(m[6])));
    }
  }
  if (end !== s.length || stack.length !== 1) throw new Error("markup: " + s);
  return [...root.childNodes];
}

// Layout

export type LayoutOptions = {
  /** where formulas are drawn */
  x: number;
  y: number;
  fontSize: number;
  /** where other elements are */
  outX: number;
  outY: number;
  /** widths of symbols, in tenths of the font size */
  widths: number[];
};
export const plainLayout: LayoutOptions = { x: 0, y: 0, fontSize: 20, outX: 0, outY: 0, widths: [5] };
let options: LayoutOptions = plainLayout;
export function setLayout(o: LayoutOptions) {
  options = o;
  changed();
}

type Layout = { rects: Map<FNode, Rect>; fonts: Map<FNode, number> };
let current: Layout | null = null;
function changed() {
  current = null;
}

type Box = { w: number; asc: number; desc: number; place: (x: number, baseline: number) => void };

export function layout(): Layout {
  if (current) return current;
  const rects = new Map<FNode, Rect>();
  const fonts = new Map<FNode, number>();
  current = { rects, fonts };

  const set = (n: FNode, b: { w: number; asc: number; desc: number }) => (x: number, y: number) => {
    rects.set(n, rect(x, y - b.asc, b.w, b.asc + b.desc));
  };
  function symbolWidth(s: string, fs: number) {
    let h = 0;
    for (const c of s) h = (h * 31 + c.codePointAt(0)!) >>> 0;
    return (options.widths[h % options.widths.length] * fs) / 10;
  }
  /** Boxes next to each other on one baseline. */
  function inline(n: FElement, items: { box: Box; margin: number }[], fs: number, minAsc: number, minDesc: number): Box {
    let w = 0;
    let asc = minAsc;
    let desc = minDesc;
    const xs = items.map(({ box, margin }) => {
      w += margin;
      const at = w;
      w += box.w + margin;
      asc = Math.max(asc, box.asc);
      desc = Math.max(desc, box.desc);
      return at;
    });
    const own = { w, asc, desc };
    return {
      ...own,
      place(x, y) {
        set(n, own)(x, y);
        items.forEach((i, k) => i.box.place(x + xs[k], y));
      },
    };
  }
  function measure(n: FNode, fs: number, stretch?: { asc: number; desc: number }): Box {
    fonts.set(n, fs);
    if (n instanceof FText) {
      const own = { w: n instanceof FComment ? 0 : symbolWidth(n.data, fs), asc: 0.75 * fs, desc: 0.25 * fs };
      return { ...own, place: set(n, own) };
    }
    const e = n as FElement;
    const kids = e.childNodes;
    switch (e.localName) {
      case "mphantom":
        return inline(e, kids.map((k) => ({ box: measure(k, fs), margin: 0 })), fs, 0, 0);
      case "mfrac": {
        const [a, b] = kids.map((k) => measure(k, fs));
        const axis = 0.25 * fs;
        const gap = 0.125 * fs;
        const w = Math.max(a?.w ?? 0, b?.w ?? 0) + 2;
        const own = { w, asc: axis + gap + (a ? a.asc + a.desc : 0), desc: gap - axis + (b ? b.asc + b.desc : 0) };
        return {
          ...own,
          place(x, y) {
            set(e, own)(x, y);
            a?.place(x + (w - a.w) / 2, y - axis - gap - a.desc);
            b?.place(x + (w - b.w) / 2, y - axis + gap + b.asc);
          },
        };
      }
      case "msup":
      case "msub": {
        const base = kids[0] && measure(kids[0], fs);
        const script = kids[1] && measure(kids[1], 0.75 * fs);
        const bAsc = base?.asc ?? 0;
        const bDesc = base?.desc ?? 0;
        const dy = !script ? 0 : e.localName === "msup" ? -Math.max(0.5 * fs, bAsc - 0.5 * fs) : Math.max(0.25 * fs, bDesc);
        const own = {
          w: (base?.w ?? 0) + (script?.w ?? 0),
          asc: Math.max(bAsc, script ? script.asc - dy : 0),
          desc: Math.max(bDesc, script ? script.desc + dy : 0),
        };
        return {
          ...own,
          place(x, y) {
            set(e, own)(x, y);
            base?.place(x, y);
            script?.place(x + base!.w, y + dy);
          },
        };
      }
      case "mroot": {
        const base = kids[0] && measure(kids[0], fs);
        const index = kids[1] && measure(kids[1], 0.5 * fs);
        const sign = 0.5 * fs;
        const iw = index?.w ?? 0;
        const bAsc = base?.asc ?? 0;
        const lift = bAsc * 0.5;
        const own = {
          w: iw + sign + (base?.w ?? 0) + 1,
          asc: Math.max(bAsc + 0.125 * fs, index ? lift + index.asc + index.desc : 0),
          desc: (base?.desc ?? 0) + 1,
        };
        return {
          ...own,
          place(x, y) {
            set(e, own)(x, y);
            index?.place(x + 1, y - lift - index.desc);
            base?.place(x + iw + sign, y);
          },
        };
      }
      case "mtable": {
        const pad = 0.25 * fs;
        const rows = e.children.map((r) => {
          fonts.set(r, fs);
          return { r, cells: r.children.map((c) => ({ c, box: (fonts.set(c, fs), inline(c, c.childNodes.map((k) => ({ box: measure(k, fs), margin: 0 })), fs, 0, 0)) })) };
        });
        const widths: number[] = [];
        rows.forEach(({ cells }) => cells.forEach(({ box }, i) => (widths[i] = Math.max(widths[i] ?? 0, box.w))));
        const heights = rows.map(({ cells }) => ({
          asc: Math.max(0, ...cells.map((c) => c.box.asc)),
          desc: Math.max(0, ...cells.map((c) => c.box.desc)),
        }));
        const w = widths.reduce((a, b) => a + b + 2 * pad, 0);
        const h = heights.reduce((a, b) => a + b.asc + b.desc + 2 * pad, 0);
        const own = { w, asc: h / 2 + 0.25 * fs, desc: h / 2 - 0.25 * fs };
        return {
          ...own,
          place(x, y) {
            set(e, own)(x, y);
            let top = y - own.asc;
            rows.forEach(({ r, cells }, i) => {
              const { asc, desc } = heights[i];
              const rh = asc + desc + 2 * pad;
              rects.set(r, rect(x, top, w, rh));
              let left = x;
              cells.forEach(({ c, box }, j) => {
                const cw = widths[j] + 2 * pad;
                box.place(left + pad + (widths[j] - box.w) / 2, top + pad + asc);
                rects.set(c, rect(left, top, cw, rh));
                left += cw;
              });
              top += rh;
            });
          },
        };
      }
      default: {
        // Rows and texts.
        const isStretchy = (k: FNode) => k instanceof FElement && k.localName === "mo" && k.getAttribute("stretchy") === "true";
        const flat = kids.map((k) => measure(k, fs));
        const asc = Math.max(0, ...flat.map((b) => b.asc));
        const desc = Math.max(0, ...flat.map((b) => b.desc));
        const items = kids.map((k, i) => ({
          box: isStretchy(k) ? measure(k, fs, { asc, desc }) : flat[i],
          margin: k instanceof FElement && k.localName === "mo" ? 0.125 * fs : 0,
        }));
        return inline(e, items, fs, stretch?.asc ?? 0, stretch?.desc ?? 0);
      }
    }
  }
  function visit(n: FNode) {
    if (n instanceof FElement) {
      if (n.localName === "math") {
        const box = measure(n, options.fontSize);
        box.place(options.x, options.y + box.asc);
        return;
      }
      rects.set(n, rect(options.outX, options.outY, 100, 50));
      fonts.set(n, options.fontSize);
      if (n.shadowRoot) visit(n.shadowRoot);
    }
    n.childNodes.forEach(visit);
  }
  visit(fakeDocument.documentElement);
  return current;
}
