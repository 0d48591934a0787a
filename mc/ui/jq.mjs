// A stand-in for jQuery and tooltipster: the part that scripts of a page use, on the small DOM.
import { Document_, Element_, Event_, html, parseInto, selector, split as topLevel } from "./dom.mjs";

// state: {tips: Set of elements with an open tooltip, contents: Map of element -> content, init: whether functionInit is called}
export function makeJq(state) {
  class Jq {
    constructor(els) { this.els = els.filter((e, i) => els.indexOf(e) === i); this.length = this.els.length; this.els.forEach((e, i) => { this[i] = e; }); }
    sub(els) { const q = new Jq(els); q.before_ = this; return q; }
    all(f) { return this.sub(this.els.flatMap(f)); }
    get(i) { return i === undefined ? [...this.els] : this.els.at(i); }
    toArray() { return [...this.els]; }
    each(f) { this.els.every((e, i) => f.call(e, i, e) !== false); return this; }
    map(f) { return this.sub(this.els.map((e, i) => f.call(e, i, e)).flat().filter(x => x != null)); }
    eq(i) { return this.sub(this.els.slice(i).slice(0, 1)); }
    first() { return this.eq(0); }
    last() { return this.sub(this.els.slice(-1)); }
    slice(a, b) { return this.sub(this.els.slice(a, b)); }
    attr(n, v) {
      if (typeof n === "object") { for (const k in n) this.attr(k, n[k]); return this; }
      if (v === undefined) return this.els[0]?.getAttribute(n) ?? undefined;
      this.els.forEach((e, i) => v === null ? e.removeAttribute(n) : e.setAttribute(n, typeof v === "function" ? v.call(e, i, e.getAttribute(n)) : v)); return this;
    }
    removeAttr(n) { this.els.forEach(e => e.removeAttribute(n)); return this; }
    prop(n, v) { if (v === undefined) return this.els[0]?.[n]; this.els.forEach(e => { e[n] = v; }); return this; }
    data(n) { return this.els[0]?.getAttribute("data-" + n) ?? undefined; }
    html(v) { if (v === undefined) return this.els[0]?.innerHTML; this.els.forEach((e, i) => { e.innerHTML = typeof v === "function" ? v.call(e, i, e.innerHTML) : v; }); return this; }
    text(v) { if (v === undefined) return this.els.map(e => e.textContent).join(""); this.els.forEach(e => { e.textContent = v; }); return this; }
    sel(s) { return e => s === undefined || s === null || (typeof s === "string" ? e.matches(s) : typeof s === "function" ? s.call(e, 0, e) : s instanceof Jq ? s.els.includes(e) : e === s); }
    // selectors are relative to each element
    within(e, s) { return typeof s === "string" ? [...e.querySelectorAll(topLevel(s).map(t => ":scope " + t).join(", "))] : make(s).els.filter(x => x !== e && e.contains(x)); }
    parent(s) { return this.all(e => e.parentElement && this.sel(s)(e.parentElement) ? [e.parentElement] : []); }
    parents(s) { return this.all(e => { const o = []; for (let n = e.parentElement; n; n = n.parentElement) if (this.sel(s)(n)) o.push(n); return o; }); }
    closest(s) { return this.all(e => e.closest(s) ?? []); }
    next(s) { return this.all(e => e.nextElementSibling && this.sel(s)(e.nextElementSibling) ? [e.nextElementSibling] : []); }
    prev(s) { return this.all(e => e.previousElementSibling && this.sel(s)(e.previousElementSibling) ? [e.previousElementSibling] : []); }
    nextAll(s) { return this.all(e => { const o = []; for (let n = e.nextElementSibling; n; n = n.nextElementSibling) if (this.sel(s)(n)) o.push(n); return o; }); }
    siblings(s) { return this.all(e => e.parentElement ? e.parentElement.children.filter(x => x !== e && this.sel(s)(x)) : []); }
    children(s) { return this.all(e => e.children.filter(this.sel(s))); }
    contents() { return this.all(e => [...e.childNodes]); }
    find(s) { return this.all(e => this.within(e, s)); }
    prevAll(s) { return this.all(e => { const o = []; for (let n = e.previousElementSibling; n; n = n.previousElementSibling) if (this.sel(s)(n)) o.push(n); return o; }); }
    nextUntil(s) { return this.all(e => { const o = []; for (let n = e.nextElementSibling; n && !(s && this.sel(s)(n)); n = n.nextElementSibling) o.push(n); return o; }); }
    before(...x) { if (this.els[0]) this.els[0].before(...x.flatMap(y => this.nodes(y))); return this; }
    after(...x) { if (this.els[0]) this.els[0].after(...x.flatMap(y => this.nodes(y))); return this; }
    insertBefore(x) { make(x).before(this); return this; }
    insertAfter(x) { make(x).after(this); return this; }
    prependTo(x) { make(x).prepend(this); return this; }
    replaceWith(x) { if (this.els[0]) this.els[0].replaceWith(...this.nodes(x)); return this; }
    unwrap() { this.all(e => [e.parentElement]).els.forEach(e => e.replaceWith(...e.childNodes)); return this; }
    off() { return this; }
    one(t, f) { return this.on(t, f); }
    trigger(t) { this.els.forEach(e => e.dispatchEvent(new Event_(t, { bubbles: true }))); return this; }
    toggle(on) { return (on ?? this.css("display") === "none") ? this.show() : this.hide(); }
    val(v) { return v === undefined ? this.els[0]?.value : this; }
    width() { return this.els[0]?.getBoundingClientRect().width; }
    height() { return this.els[0]?.getBoundingClientRect().height; }
    even() { return this.filter(i => i % 2 === 0); }
    odd() { return this.filter(i => i % 2 === 1); }
    filter(s) { return this.sub(this.els.filter((e, i) => typeof s === "function" ? s.call(e, i, e) : e.matches(s))); }
    not(s) { return this.sub(this.els.filter((e, i) => typeof s === "function" ? !s.call(e, i, e) : !this.sel(s)(e))); }
    has(s) { return this.sub(this.els.filter(e => this.within(e, s).length)); }
    is(s) { return this.els.some((e, i) => typeof s === "function" ? s.call(e, i, e) : this.sel(s)(e)); }
    index(x) { return x === undefined ? this.els[0].parentElement.children.indexOf(this.els[0]) : this.els.indexOf(x[0] ?? x); }
    clone() { return this.sub(this.els.map(e => e.cloneNode(true))); }
    remove(s) { this.els.filter(this.sel(s)).forEach(e => e.remove()); return this; }
    detach() { return this.remove(); }
    empty() { this.els.forEach(e => e.replaceChildren()); return this; }
    nodes(x) { return x instanceof Jq ? x.els : typeof x === "string" ? fragment(x) : [x]; }
    append(x) { if (this.els[0]) this.nodes(x).forEach(n => this.els[0].appendChild(n)); return this; }
    prepend(x) { if (this.els[0]) this.els[0].prepend(...this.nodes(x)); return this; }
    appendTo(x) { make(x).append(this); return this; }
    wrap(x) { this.els.forEach(e => { const w = this.nodes(x)[0]; if (e.parentNode) e.parentNode.replaceChild(w, e); w.appendChild(e); }); return this; }
    css(n, v) {
      if (typeof n === "object") { for (const k in n) this.css(k, n[k]); return this; }
      if (v === undefined) return this.els[0]?.style.getPropertyValue(n);
      this.els.forEach(e => e.style.setProperty(n, v)); return this;
    }
    addClass(c) { this.els.forEach(e => e.classList.add(...c.split(/\s+/).filter(Boolean))); return this; }
    removeClass(c) { this.els.forEach(e => e.classList.remove(...c.split(/\s+/).filter(Boolean))); return this; }
    toggleClass(c, on) { this.els.forEach(e => e.classList.toggle(c, on)); return this; }
    hasClass(c) { return this.els.some(e => e.classList.contains(c)); }
    hide() { return this.css("display", "none"); }
    show() { return this.css("display", ""); }
    on(t, f) { this.els.forEach(e => e.addEventListener(t, f)); return this; }
    add(x) { return new Jq([...this.els, ...make(x).els]); }
    end() { return this.before_ ?? new Jq([]); }
    addBack() { return new Jq([...(this.before_?.els ?? []), ...this.els]); }
    tooltipster(cmd, value) {
      if (cmd === undefined || typeof cmd === "object") {
        for (const e of this.els) {
          e.classList.add("tooltipstered");
          if (!state.init) continue;
          const opts = cmd || {};
          if (opts.content !== undefined && opts.content !== null) state.contents.set(e, opts.content);
          const instance = { content: (...v) => { if (!v.length) return state.contents.get(e); state.contents.set(e, v[0]); return instance; }, elementOrigin: () => e, option: (k, v) => v === undefined ? opts[k] : instance, on: () => instance, disable: () => instance, enable: () => instance, close: () => instance, open: () => instance };
          if (opts.functionInit) opts.functionInit.call(instance, instance, { origin: e });
          for (const k of ["functionBefore", "functionReady"]) if (opts[k]) (state.later ??= []).push(() => opts[k].call(instance, instance, { origin: e, event: null, tooltip: null }));
          if (typeof state.contents.get(e) === "function") state.contents.set(e, state.contents.get(e).call(e, e));
        }
        return this;
      }
      if (cmd === "status") return { open: state.tips.has(this.els[0]), enabled: true, state: state.tips.has(this.els[0]) ? "stable" : "closed" };
      if (cmd === "instance") return { status: () => this.tooltipster("status"), open: () => this.tooltipster("open"), close: () => this.tooltipster("close"), content: v => this.tooltipster("content", v) };
      if (cmd === "open" || cmd === "show") this.els.forEach(e => state.tips.add(e));
      if (cmd === "close" || cmd === "hide") this.els.forEach(e => state.tips.delete(e));
      if (cmd === "content") { if (value === undefined) return state.contents.get(this.els[0]); this.els.forEach(e => state.contents.set(e, value)); }
      return this;
    }
    [Symbol.iterator]() { return this.els[Symbol.iterator](); }
  }
  function fragment(text) {
    const box = document.createElement("div");
    parseInto(box, text);
    const out = [...box.childNodes];
    out.forEach(n => { n.parentNode = null; });
    return out;
  }
  function make(x, context) {
    if (x instanceof Jq) return x;
    if (x == null || x === "") return new Jq([]);
    if (typeof x === "string") {
      if (/^\s*<[\w\W]+>[^>]*$/.test(x)) return new Jq(fragment(x.trim()));
      const quick = /^#([\w-]+)$/.exec(x);
      if (quick) { const e = document.getElementById(quick[1]); return new Jq(e ? [e] : []); }
      return new Jq([...(context?.[0] ?? context ?? document).querySelectorAll(x)]);
    }
    if (typeof x === "function") { x(); return new Jq([document]); }
    return new Jq(Array.isArray(x) ? x : x[Symbol.iterator] && !(x instanceof Element_) ? [...x] : [x]);
  }
  make.fn = Jq.prototype;
  make.each = (l, f) => { [...l].forEach((e, i) => f.call(e, i, e)); };
  make.map = (l, f) => [...l].flatMap((e, i) => f(e, i) ?? []);
  make.grep = (l, f) => [...l].filter((e, i) => f(e, i));
  make.extend = (...o) => Object.assign(...o.filter(x => typeof x === "object"));
  make.trim = x => String(x).trim();
  make.inArray = (x, l) => [...l].indexOf(x);
  make.makeArray = l => [...l];
  make.isFunction = f => typeof f === "function";
  make.contains = (a, b) => a !== b && a.contains(b);
  make.noop = () => {};
  make.escapeSelector = s => CSS.escape(s);
  return make;
}
