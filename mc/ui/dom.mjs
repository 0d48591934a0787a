// A small DOM: enough of the browser for the scripts of a page, with selectors, events, focus and visibility.

export class Style {
  constructor() {
    const props = {};
    return new Proxy({}, {
      get(_, k) {
        if (k === "setProperty") return (n, v) => { props[camel(n)] = String(v); };
        if (k === "removeProperty") return n => { delete props[camel(n)]; };
        if (k === "getPropertyValue") return n => props[camel(n)] ?? "";
        if (k === "cssText") return Object.entries(props).map(([a, b]) => `${a}: ${b};`).join(" ");
        if (k === "props") return props;
        return typeof k === "string" ? props[k] ?? "" : undefined;
      },
      set(_, k, v) {
        if (k === "cssText") { for (const p in props) delete props[p]; parseCss(v, props); return true; }
        if (v === "" || v === null) delete props[k]; else props[k] = String(v);
        return true;
      },
    });
  }
}
const camel = s => s.trim().replace(/-([a-z])/g, (_, c) => c.toUpperCase());
function parseCss(text, props) {
  for (const d of String(text).split(";")) {
    const i = d.indexOf(":");
    if (i > 0) props[camel(d.slice(0, i))] = d.slice(i + 1).trim();
  }
}

class ClassList {
  constructor(el) { this.el = el; }
  get list() { return this.el.words; }
  set list(l) { this.el.setAttribute("class", l.join(" ")); }
  add(...cs) { const l = [...this.list]; for (const c of cs) { token(c); if (!l.includes(c)) l.push(c); } this.list = l; }
  remove(...cs) { cs.forEach(token); if (this.el.hasAttribute("class")) this.list = this.list.filter(c => !cs.includes(c)); }
  contains(c) { return this.list.includes(c); }
  toggle(c, force) {
    const on = force === undefined ? !this.contains(c) : !!force;
    if (on) this.add(c); else this.remove(c);
    return on;
  }
  replace(a, b) { const had = this.contains(a); if (had) { this.remove(a); this.add(b); } return had; }
  item(i) { return this.list[i] ?? null; }
  forEach(f) { this.list.forEach(f); }
  entries() { return this.list.entries(); }
  values() { return this.list.values(); }
  get length() { return this.list.length; }
  get value() { return this.el.getAttribute("class") || ""; }
  set value(v) { this.el.setAttribute("class", v); }
  toString() { return this.value; }
  [Symbol.iterator]() { return this.list[Symbol.iterator](); }
}
const words = s => s.split(/\s+/).filter(Boolean);
function token(c) {
  if (c === "" || /\s/.test(c)) throw new SyntaxError(`bad class token '${c}'`);
}

class EventTarget_ {
  constructor() { this.listeners = []; }
  addEventListener(type, fn, opts) {
    if (!fn) return;
    const o = typeof opts === "boolean" ? { capture: opts } : opts || {};
    if (!this.listeners.some(l => l.type === type && l.fn === fn && !!l.capture === !!o.capture)) this.listeners.push({ type, fn, once: o.once, capture: !!o.capture });
  }
  removeEventListener(type, fn, opts) {
    const capture = typeof opts === "boolean" ? opts : !!opts?.capture;
    this.listeners = this.listeners.filter(l => l.type !== type || l.fn !== fn || l.capture !== capture);
  }
  dispatchEvent(ev) {
    ev.target = this;
    const path = [];
    for (let n = this; n; n = n.parentNode) path.push(n);
    const doc = path[path.length - 1];
    if (doc.defaultView) path.push(doc.defaultView);
    const run = (n, capture) => {
      ev.currentTarget = n;
      for (const l of [...n.listeners]) {
        if (l.type !== ev.type || ev.stoppedNow || (n !== this && l.capture !== capture) || (n === this && !capture && false)) continue;
        if (n === this && capture !== l.capture) continue;
        if (l.once) n.listeners = n.listeners.filter(x => x !== l);
        try {
          const r = typeof l.fn === "function" ? l.fn.call(n, ev) : l.fn.handleEvent(ev);
          if (r && typeof r.catch === "function") r.catch(e => env.errors.push(String(e?.stack || e)));
        } catch (e) { env.errors.push(String(e?.stack || e)); }
      }
      const h = n["on" + ev.type];
      if (!capture && typeof h === "function" && !ev.stoppedNow) {
        try { h.call(n, ev); } catch (e) { env.errors.push(String(e?.stack || e)); }
      }
    };
    for (const n of [...path].reverse()) { if (ev.stopped || ev.stoppedNow) break; run(n, true); }
    for (const n of path) {
      if (ev.stopped || ev.stoppedNow) break;
      run(n, false);
      if (!ev.bubbles) break;
    }
    return !ev.defaultPrevented;
  }
}

export class Event_ {
  constructor(type, init = {}) {
    this.type = type; this.bubbles = false; this.cancelable = true; this.defaultPrevented = false; this.timeStamp = 0; this.isTrusted = true;
    this.ctrlKey = this.shiftKey = this.altKey = this.metaKey = this.repeat = this.isComposing = false;
    Object.assign(this, init);
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this.stopped = true; }
  stopImmediatePropagation() { this.stoppedNow = true; }
  composedPath() { const p = []; for (let n = this.target; n; n = n.parentNode) p.push(n); return p; }
  getModifierState() { return false; }
}

const SVG = new Set(["svg", "path", "circle", "line", "rect", "g", "defs", "mask", "text"]);
const VOID = new Set(["img", "br", "hr", "meta", "link", "input", "source", "col"]);

class Node_ extends EventTarget_ {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
  get children() { return this.childNodes.filter(c => c instanceof Element_); }
  get childElementCount() { return this.children.length; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get firstElementChild() { return this.children[0] ?? null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] ?? null; }
  sib(d, elements) {
    if (!this.parentNode) return null;
    const l = elements ? this.parentNode.children : this.parentNode.childNodes;
    return l[l.indexOf(this) + d] ?? null;
  }
  get nextSibling() { return this.sib(1); }
  get previousSibling() { return this.sib(-1); }
  get nextElementSibling() { return this.parentNode ? this.parentNode.childNodes.slice(this.parentNode.childNodes.indexOf(this) + 1).find(c => c instanceof Element_) ?? null : null; }
  get previousElementSibling() { return this.parentNode ? this.parentNode.childNodes.slice(0, this.parentNode.childNodes.indexOf(this)).reverse().find(c => c instanceof Element_) ?? null : null; }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n === this.ownerDocument || n === globalThis.document; }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  hasChildNodes() { return this.childNodes.length > 0; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  compareDocumentPosition(o) {
    if (o === this) return 0;
    if (this.contains(o)) return 20;
    if (o.contains(this)) return 10;
    const all = walk(this.getRootNode());
    return all.indexOf(this) < all.indexOf(o) ? 4 : 2;
  }
  detach() { if (this.parentNode) { const l = this.parentNode.childNodes; l.splice(l.indexOf(this), 1); this.parentNode = null; } }
  remove() {
    const doc = this.ownerDocument;
    this.detach();
    if (doc && doc.focused && this.contains(doc.focused)) doc.focused = null;
  }
  removeChild(c) { if (c.parentNode !== this) throw new Error("not a child"); c.remove(); return c; }
  insertBefore(n, ref) {
    if (n.contains(this)) throw new Error("HierarchyRequestError");
    if (n instanceof Fragment) { [...n.childNodes].forEach(c => this.insertBefore(c, ref)); return n; }
    n.detach();
    const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
    if (i < 0) throw new Error("NotFoundError");
    this.childNodes.splice(i, 0, n);
    n.parentNode = this;
    if (n instanceof Element_ && this.ownerDocument === globalThis.document && env.appended) env.appended(n);
    return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  make(x) { return x instanceof Node_ ? x : new Text_(this.ownerDocument, String(x)); }
  append(...ns) { ns.forEach(n => this.appendChild(this.make(n))); }
  prepend(...ns) { const f = this.firstChild; ns.forEach(n => this.insertBefore(this.make(n), f)); }
  before(...ns) { ns.forEach(n => this.parentNode.insertBefore(this.make(n), this)); }
  after(...ns) { const r = this.nextSibling; ns.forEach(n => this.parentNode.insertBefore(this.make(n), r)); }
  replaceWith(...ns) { this.before(...ns); this.remove(); }
  replaceChildren(...ns) { [...this.childNodes].forEach(c => c.remove()); this.append(...ns); }
  replaceChild(n, o) { this.insertBefore(n, o); o.remove(); return o; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(""); }
  set textContent(t) { [...this.childNodes].forEach(c => c.remove()); if (t !== "" && t != null) this.appendChild(new Text_(this.ownerDocument, String(t))); }
  get innerText() { return this.textContent; }
  set innerText(t) { this.textContent = t; }
  querySelectorAll(sel) { const s = selector(sel); return nodeList(collect(this, e => matches(e, s, this), [])); }
  querySelector(sel) { const s = selector(sel); return find(this, e => matches(e, s, this)); }
  getElementsByClassName(c) { return this.querySelectorAll(words(c).map(x => "." + x).join("")); }
  getElementsByTagName(t) { return this.querySelectorAll(t); }
}

function nodeList(a) { a.item = i => a[i] ?? null; return a; }
// the elements of a tree, in order
export function walk(n) {
  const out = [];
  const go = e => { if (e.nodeType === 1) out.push(e); for (const c of e.childNodes) if (c.nodeType === 1) go(c); };
  go(n);
  return out;
}
function find(n, f) {
  for (const c of n.childNodes) if (c.nodeType === 1) { if (f(c)) return c; const r = find(c, f); if (r) return r; }
  return null;
}
function collect(n, f, out) {
  for (const c of n.childNodes) if (c.nodeType === 1) { if (f(c)) out.push(c); collect(c, f, out); }
  return out;
}

class Text_ extends Node_ {
  constructor(doc, data) { super(doc); this.data = data; this.nodeType = 3; this.nodeName = "#text"; }
  get textContent() { return this.data; }
  set textContent(t) { this.data = String(t); }
  get nodeValue() { return this.data; }
  cloneNode() { return new Text_(this.ownerDocument, this.data); }
}

class Fragment extends Node_ {
  constructor(doc) { super(doc); this.nodeType = 11; }
}

const REFLECT = { id: "id", href: "href", src: "src", title: "title", type: "type", name: "name", rel: "rel", alt: "alt" };
export class Element_ extends Node_ {
  constructor(doc, tag) {
    super(doc);
    this.localName = tag; this.attrs = new Map(); this.words = []; this.nodeType = 1; this.classList = new ClassList(this);
    this.scrollTop = this.scrollLeft = this.scrollHeight = 0; this.offsetHeight = this.offsetWidth = this.clientHeight = this.clientWidth = 20;
    this.offsetTop = this.offsetLeft = 0;
  }
  get tagName() { return SVG.has(this.localName) ? this.localName : this.localName.toUpperCase(); }
  get nodeName() { return this.tagName; }
  get style() { return this.style_ ??= new Style(); }
  set style(v) { this.style.cssText = v; }
  get className() { return this.getAttribute("class") || ""; }
  set className(v) { this.setAttribute("class", v); }
  get tabIndex() { const t = this.getAttribute("tabindex"); return t !== null ? Number(t) : ["a", "button", "input", "select", "textarea"].includes(this.localName) ? 0 : -1; }
  set tabIndex(v) { this.setAttribute("tabindex", v); }
  get hidden() { return this.hasAttribute("hidden"); }
  set hidden(v) { this.toggleAttribute("hidden", !!v); }
  get attributes() { return [...this.attrs].map(([name, value]) => ({ name, value })); }
  getAttribute(n) { return this.attrs.get(n) ?? null; }
  setAttribute(n, v) {
    this.attrs.set(n, String(v));
    if (n === "class") this.words = words(String(v));
    if (n === "style") this.style.cssText = String(v);
  }
  removeAttribute(n) { this.attrs.delete(n); if (n === "class") this.words = []; }
  hasAttribute(n) { return this.attrs.has(n); }
  toggleAttribute(n, force) {
    const on = force === undefined ? !this.hasAttribute(n) : !!force;
    if (on) this.setAttribute(n, ""); else this.removeAttribute(n);
    return on;
  }
  getAttributeNames() { return [...this.attrs.keys()]; }
  get dataset() {
    const el = this;
    const key = k => "data-" + k.replace(/[A-Z]/g, c => "-" + c.toLowerCase());
    return new Proxy({}, {
      get: (_, k) => typeof k === "string" ? el.getAttribute(key(k)) ?? undefined : undefined,
      set: (_, k, v) => { el.setAttribute(key(k), v); return true; },
      has: (_, k) => el.hasAttribute(key(k)),
      deleteProperty: (_, k) => { el.removeAttribute(key(k)); return true; },
    });
  }
  matches(sel) { return matches(this, selector(sel), this); }
  closest(sel) { const s = selector(sel); for (let n = this; n instanceof Element_; n = n.parentNode) if (matches(n, s, this)) return n; return null; }
  get innerHTML() { return this.childNodes.map(html).join(""); }
  set innerHTML(t) { [...this.childNodes].forEach(c => c.remove()); parseInto(this, String(t)); }
  get outerHTML() { return html(this); }
  insertAdjacentHTML(where, t) {
    const f = new Fragment(this.ownerDocument); parseInto(f, t);
    this.insertAdjacentElement(where, f);
  }
  insertAdjacentElement(where, n) {
    if (where === "beforebegin") this.parentNode.insertBefore(n, this);
    else if (where === "afterbegin") this.insertBefore(n, this.firstChild);
    else if (where === "beforeend") this.appendChild(n);
    else this.parentNode.insertBefore(n, this.nextSibling);
    return n;
  }
  cloneNode(deep) {
    const e = new Element_(this.ownerDocument, this.localName);
    for (const [k, v] of this.attrs) e.setAttribute(k, v);
    if (this.style_) Object.assign(e.style.props, this.style_.props);
    if (deep) this.childNodes.forEach(c => e.appendChild(c.cloneNode(true)));
    return e;
  }
  focus() { if (focusable(this) && visible(this)) this.ownerDocument.focused = this; }
  blur() { if (this.ownerDocument.focused === this) this.ownerDocument.focused = null; }
  click() { this.dispatchEvent(new Event_("click", { bubbles: true, button: 0 })); }
  scrollIntoView() { env.scrolls++; }
  scrollTo() { env.scrolls++; }
  getBoundingClientRect() {
    const at = env.rect ? env.rect(this) : { top: 0, height: 20 };
    return { x: 0, y: at.top, left: 0, right: 100, width: 100, top: at.top, height: at.height, bottom: at.top + at.height };
  }
  getClientRects() { return visible(this) ? [this.getBoundingClientRect()] : []; }
  get offsetParent() { return visible(this) ? this.parentElement : null; }
  animate() { return { finished: Promise.resolve(), onfinish: null, cancel() {} }; }
  checkVisibility() { return visible(this); }
}
for (const [p, a] of Object.entries(REFLECT)) Object.defineProperty(Element_.prototype, p, {
  get() { return this.getAttribute(a) ?? ""; }, set(v) { this.setAttribute(a, v); },
});

export class Document_ extends Node_ {
  constructor() {
    super(null);
    this.nodeType = 9; this.focused = null; this.readyState = "complete"; this.defaultView = null; this.title = ""; this.visibilityState = "visible";
  }
  get documentElement() { return this.children[0] ?? null; }
  get body() { return this.documentElement?.children.find(c => c.localName === "body") ?? null; }
  get head() { return this.documentElement?.children.find(c => c.localName === "head") ?? null; }
  get activeElement() { return this.focused ?? this.body; }
  get scrollingElement() { return this.documentElement; }
  getElementById(id) { return find(this, e => e.getAttribute("id") === id); }
  createElement(t) { return new Element_(this, t.toLowerCase()); }
  createElementNS(_, t) { return new Element_(this, t); }
  createTextNode(t) { return new Text_(this, t); }
  createDocumentFragment() { return new Fragment(this); }
  hasFocus() { return true; }
  execCommand() { return false; }
}

export class Window_ extends EventTarget_ {}

export const env = { errors: [], scrolls: 0, appended: null, rect: null };

// --- HTML ----------------------------------------------------------------------------------

const ent = { amp: "&", lt: "<", gt: ">", quot: '"', apos: "'", nbsp: "\u00a0" };
const decode = s => s.replace(/&(#x[\da-f]+|#\d+|\w+);/gi, (m, e) => e[0] === "#" ? String.fromCodePoint(e[1] === "x" ? parseInt(e.slice(2), 16) : Number(e.slice(1))) : ent[e] ?? m);
const escText = s => s.replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");
export function html(n) {
  if (n instanceof Text_) return escText(n.data);
  const css = n.style_ ? n.style_.cssText : "";
  const attrs = [...n.attrs].filter(([k]) => k !== "style").map(([k, v]) => ` ${k}="${v.replace(/&/g, "&amp;").replace(/"/g, "&quot;")}"`).join("") + (css ? ` style="${css}"` : "");
  if (VOID.has(n.localName)) return `<${n.localName}${attrs}>`;
  return `<${n.localName}${attrs}>${n.childNodes.map(html).join("")}</${n.localName}>`;
}
export function parseInto(root, text) {
  const doc = root.ownerDocument ?? root;
  const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<\/([a-zA-Z][\w:-]*)\s*>|<([a-zA-Z][\w:-]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>|[^<]+|</g;
  const stack = [root];
  let m;
  while ((m = re.exec(text))) {
    const top = stack[stack.length - 1];
    if (m[1]) {
      const i = stack.map(e => e.localName).lastIndexOf(m[1].toLowerCase());
      const j = i > 0 ? i : stack.map(e => e.localName).lastIndexOf(m[1]);
      if (j > 0) stack.length = j;
    } else if (m[2]) {
      const el = new Element_(doc, SVG.has(m[2]) ? m[2] : m[2].toLowerCase());
      for (const a of m[3].matchAll(/([^\s=>\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g)) el.setAttribute(a[1], decode(a[2] ?? a[3] ?? a[4] ?? ""));
      top.childNodes.push(el); el.parentNode = top;
      if (!m[4] && !VOID.has(el.localName)) stack.push(el);
    } else if (!m[0].startsWith("<!")) {
      const t = new Text_(doc, decode(m[0])); top.childNodes.push(t); t.parentNode = top;
    }
  }
}

// --- visibility and focus ----------------------------------------------------------------------

// the style sheet: .hide hides, menus are hidden until shown
export function display(e) {
  if (e.words.includes("hide") || e.attrs.has("hidden")) return "none";
  if (e.style_ && e.style_.display) return e.style_.display;
  if (e.words.includes("hr-menu-zone")) return "none";
  return "block";
}
export function visible(e) {
  for (let n = e; n instanceof Element_; n = n.parentNode) if (display(n) === "none" || n.style_?.visibility === "hidden") return false;
  return true;
}
export function focusable(e) { return e.hasAttribute("tabindex") || (e.localName === "a" && e.hasAttribute("href")) || ["button", "input", "select", "textarea"].includes(e.localName); }

// --- selectors ----------------------------------------------------------------------------------

const cache = new Map();
export function selector(text) {
  let s = cache.get(text);
  if (!s) { s = parseList(text); cache.set(text, s); }
  return s;
}
export function split(text) {
  const out = [""]; let depth = 0, quote = "";
  for (let i = 0; i < text.length; i++) {
    const c = text[i];
    if (c === "\\") { out[out.length - 1] += c + (text[++i] ?? ""); continue; }
    if (quote) { if (c === quote) quote = ""; } else if (c === '"' || c === "'") quote = c;
    else if ("([".includes(c)) depth++; else if (")]".includes(c)) depth--;
    if (c === "," && !depth && !quote) out.push(""); else out[out.length - 1] += c;
  }
  if (depth || quote) throw new SyntaxError(`'${text}' is not a valid selector`);
  return out;
}
function parseList(text, relative = false) { return split(text).map(t => parseComplex(t.trim(), relative)); }
function parseComplex(text, relative) {
  const fail = () => { throw new SyntaxError(`'${text}' is not a valid selector`); };
  const parts = []; // {comb, tests}
  let i = 0, comb = relative ? " " : null;
  if (!text) fail();
  const name = () => {
    let s = "";
    while (i < text.length) {
      if (text[i] === "\\") {
        const h = /^\\([0-9a-fA-F]{1,6})\s?/.exec(text.slice(i));
        if (h) { s += String.fromCodePoint(parseInt(h[1], 16)); i += h[0].length; } else { s += text[i + 1] ?? ""; i += 2; }
      } else if (/[\w\u0080-\uffff-]/.test(text[i])) s += text[i++]; else break;
    }
    if (!s) fail();
    return s;
  };
  const ident = () => { if (/^-?[0-9]/.test(text.slice(i))) fail(); return name(); };
  const args = () => {
    if (text[i] !== "(") fail();
    let d = 0, j = i;
    do { if (text[j] === "(") d++; if (text[j] === ")") d--; j++; } while (d && j < text.length);
    if (d) fail();
    const a = text.slice(i + 1, j - 1); i = j; return a;
  };
  while (i < text.length) {
    const m = /^\s*([>+~])\s*|^\s+/.exec(text.slice(i));
    if (m && m[0]) {
      i += m[0].length;
      if (i >= text.length) fail();
      if (!parts.length && comb === null) { if (m[1]) fail(); continue; }
      comb = m[1] || " ";
    } else if (parts.length) fail();
    const tests = [];
    const start = i;
    while (i < text.length && !/[\s>+~]/.test(text[i])) {
      const c = text[i];
      if (c === "&") { i++; tests.push((e, scope) => e === scope); }
      else if (c === "*") i++;
      else if (c === "#") { i++; const n = ident(); tests.push(e => e.getAttribute("id") === n); }
      else if (c === ".") { i++; const n = ident(); tests.push(e => e.words.includes(n)); }
      else if (c === "[") {
        const a = /^\[\s*([\w-]+)\s*(?:([~|^$*]?=)\s*(?:"([^"]*)"|'([^']*)'|([\w-]+))\s*([is])?\s*)?\]/.exec(text.slice(i));
        if (!a) fail();
        i += a[0].length;
        const v = a[3] ?? a[4] ?? a[5];
        tests.push(e => {
          const x = e.getAttribute(a[1]);
          if (x === null) return false;
          switch (a[2]) {
            case undefined: return true;
            case "=": return x === v;
            case "~=": return words(x).includes(v);
            case "^=": return v !== "" && x.startsWith(v);
            case "$=": return v !== "" && x.endsWith(v);
            case "*=": return v !== "" && x.includes(v);
            default: return x === v || x.startsWith(v + "-");
          }
        });
      } else if (c === ":") {
        i++;
        const p = name();
        if (["not", "is", "where", "matches"].includes(p)) {
          const l = parseList(args());
          tests.push((e, s) => matches(e, l, s) === (p !== "not"));
        } else if (p === "has") {
          const l = parseList(args(), true);
          tests.push(e => has(e, l));
        } else if (p === "scope") tests.push((e, s) => e === s);
        else if (p === "focus" || p === "focus-visible") tests.push(e => e.ownerDocument.focused === e);
        else if (p === "focus-within") tests.push(e => e.contains(e.ownerDocument.focused));
        else if (p === "hover" || p === "active") tests.push(() => false);
        else if (p === "first-child") tests.push(e => !e.previousElementSibling);
        else if (p === "last-child") tests.push(e => !e.nextElementSibling);
        else if (p === "only-child") tests.push(e => !e.nextElementSibling && !e.previousElementSibling);
        else if (p === "first-of-type") tests.push(e => !e.parentNode || e.parentNode.children.find(x => x.localName === e.localName) === e);
        else if (p === "last-of-type") tests.push(e => !e.parentNode || e.parentNode.children.filter(x => x.localName === e.localName).pop() === e);
        else if (p === "nth-child") { const k = Number(args()); if (!Number.isInteger(k)) fail(); tests.push(e => e.parentNode && e.parentNode.children[k - 1] === e); }
        else if (p === "empty") tests.push(e => !e.childNodes.length);
        else if (p === "root") tests.push(e => !(e.parentNode instanceof Element_));
        else if (p === "disabled") tests.push(e => e.hasAttribute("disabled"));
        else if (p === "enabled") tests.push(e => !e.hasAttribute("disabled"));
        else fail();
      } else if (/[a-zA-Z]/.test(c)) { const n = name().toLowerCase(); tests.push(e => e.localName.toLowerCase() === n); }
      else fail();
    }
    if (i === start) fail();
    parts.push({ comb, tests });
    comb = null;
  }
  if (!parts.length) fail();
  return parts;
}
const ok = (e, part, scope) => part.tests.every(t => t(e, scope));
function up(e, parts, k, scope) {
  if (k === 0) return true;
  const prev = parts[k - 1];
  switch (parts[k].comb) {
    case ">": { const p = e.parentNode; return p instanceof Element_ && ok(p, prev, scope) && up(p, parts, k - 1, scope); }
    case "+": { const p = e.previousElementSibling; return p && ok(p, prev, scope) && up(p, parts, k - 1, scope); }
    case "~": for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (ok(p, prev, scope) && up(p, parts, k - 1, scope)) return true; return false;
    default: for (let p = e.parentNode; p instanceof Element_; p = p.parentNode) if (ok(p, prev, scope) && up(p, parts, k - 1, scope)) return true; return false;
  }
}
export function matches(e, list, scope) {
  return list.some(parts => ok(e, parts[parts.length - 1], scope) && up(e, parts, parts.length - 1, scope));
}
// relative selectors: some element reached from e by the combinators
function has(e, list) {
  return list.some(parts => {
    let at = [e];
    for (const part of parts) {
      const next = [];
      for (const x of at) {
        let c;
        if (part.comb === ">") c = x.children;
        else if (part.comb === "+") c = x.nextElementSibling ? [x.nextElementSibling] : [];
        else if (part.comb === "~") { c = []; for (let n = x.nextElementSibling; n; n = n.nextElementSibling) c.push(n); }
        else c = walk(x).slice(1);
        next.push(...c.filter(y => ok(y, part, e)));
      }
      at = next;
    }
    return at.length > 0;
  });
}
