// Explores the states that a page reaches under clicks and keys, running the scripts of the page, and compares each with a model.
// stdin: {static, pages: [{html, config}]}; stdout: one line of JSON per page.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { Worker } from "node:worker_threads";
import { Document_, Element_, Event_, Window_, display, env, focusable, html, parseInto, visible, walk } from "./dom.mjs";
import { algorithms, minimaps, tooltips } from "./aids.mjs";
import { makeJq } from "./jq.mjs";

const job = JSON.parse(fs.readFileSync(0, "utf8"));
const realSetImmediate = setImmediate;
const real = { log: console.log.bind(console) };
const settle = () => new Promise(r => realSetImmediate(r));

// --- modules of the page, fresh for each page ------------------------------------------------

// A thread that ends the process when the page's scripts do not end, and says after what.
const shared = new SharedArrayBuffer(4096), count = new Int32Array(shared, 0, 2), said = new Uint8Array(shared, 8);
const enc = new TextEncoder();
function beat(what) {
  count[1] = enc.encodeInto(JSON.stringify(what).slice(0, 1000), said).written;
  Atomics.add(count, 0, 1);
}
new Worker(`
  const { workerData } = require("node:worker_threads"), fs = require("node:fs");
  const count = new Int32Array(workerData, 0, 2), said = new Uint8Array(workerData, 8);
  // processor time, so that a slow machine is not taken for a page that hangs
  const spent = () => { const u = process.cpuUsage(); return u.user + u.system; };
  let last = -1, since = spent();
  setInterval(() => {
    const now = Atomics.load(count, 0);
    if (now !== last) since = spent();
    last = now;
    if (spent() - since < 15e6) return;
    fs.writeSync(1, JSON.stringify({ hang: new TextDecoder().decode(said.slice(0, count[1])) }) + "\\n");
    process.kill(process.pid, "SIGKILL");
  }, 500);
`, { eval: true, workerData: shared }).unref();

const sources = new Map();
function sourceOf(name) {
  if (!sources.has(name)) sources.set(name, fs.readFileSync(path.join(job.static, name), "utf8"));
  return sources.get(name);
}
// The scripts as served: below the path of the page's configuration and nowhere else, but for those that are missing.
function loader() {
  const mods = new Map();
  const base = cfg.path || "/static/";
  const get = async (spec, from) => {
    const url = new URL(spec, from?.identifier ?? "http://host/dir/page.html");
    const name = path.basename(url.pathname);
    if (url.origin !== "http://host" || url.pathname !== new URL(base, "http://host/dir/page.html").pathname + name || (cfg.missing || []).includes(name)) throw new TypeError("Failed to fetch dynamically imported module: " + url);
    if (!mods.has(name)) {
      const m = new vm.SourceTextModule(sourceOf(name), { identifier: url.href, importModuleDynamically: load });
      mods.set(name, m);
      await m.link(get);
    }
    return mods.get(name);
  };
  const load = async (spec, from) => {
    const m = await get(spec, from);
    if (m.status === "linked") await m.evaluate();
    return m;
  };
  return load;
}

// --- a page --------------------------------------------------------------------------------------

let timers, toasts, clip, tips, cfg, warned, jqState, rendered;

function globalsFor(doc, win) {
  const nav = { clipboard: cfg.clipboard === "none" ? undefined : { writeText: async t => { if (cfg.clipboard === "denied") throw new Error("NotAllowedError"); clip.push(t); } }, userAgent: "x", platform: "x" };
  const lacks = cfg.lacks || [];
  const jq = makeJq(jqState);
  if (lacks.includes("tooltipster")) delete jq.fn.tooltipster;
  const fake = {
    document: doc, window: win, navigator: nav, location: doc.location,
    getComputedStyle: e => ({ display: visibleOwn(e), getPropertyValue: p => p === "display" ? visibleOwn(e) : "" }),
    ResizeObserver: class { constructor(f) { this.f = f; } observe(el) { resize.push(() => this.f([{ target: el, contentRect: { height: 20, width: 20 } }])); } unobserve() {} disconnect() {} },
    IntersectionObserver: class { observe() {} unobserve() {} disconnect() {} }, MutationObserver: class { observe() {} disconnect() {} takeRecords() { return []; } },
    setTimeout: (f, ...a) => { timers.push([f, a]); return timers.length; }, clearTimeout: i => { if (timers[i - 1]) timers[i - 1] = null; },
    setInterval: () => 0, clearInterval: () => {}, requestAnimationFrame: f => { timers.push([f, [0]]); return timers.length; }, cancelAnimationFrame: i => { if (timers[i - 1]) timers[i - 1] = null; },
    queueMicrotask: globalThis.queueMicrotask,
    Event: Event_, CustomEvent: Event_, KeyboardEvent: Event_, MouseEvent: Event_, Element: Element_, HTMLElement: Element_, Node: { ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_POSITION_FOLLOWING: 4, DOCUMENT_POSITION_PRECEDING: 2 },
    CSS: { escape: s => String(s).replace(/[^\w-\u0080-\uffff]|^\d/g, c => "\\" + (/\d/.test(c) ? c.charCodeAt(0).toString(16) + " " : c)) },
    $: jq, jQuery: jq, matchMedia: () => ({ matches: false, addEventListener() {} }),
    innerHeight: 600, innerWidth: 800, scrollBy: () => { env.scrolls++; }, scrollTo: () => { env.scrolls++; }, scrollX: 0, scrollY: 0, pageYOffset: 0,
    console: { log() {}, debug() {}, info() {}, warn() {}, error: (...a) => { warned.push(a.map(x => String(x?.stack || x)).join(" ")); } },
  };
  for (const [k, v] of Object.entries(fake)) {
    Object.defineProperty(globalThis, k, { value: v, configurable: true, writable: true });
    if (k !== "window") win[k] = v;
  }
  delete globalThis.pseudocode;
  Object.defineProperty(globalThis, "MathJax", { get: () => win.MathJax, set: v => { win.MathJax = v; }, configurable: true });
  if (lacks.includes("jquery")) { delete globalThis.$; delete globalThis.jQuery; delete win.$; delete win.jQuery; }
}
let resize = [], held_ = [];
// the renderer of algorithms, which does not accept all of them
function algorithmsOf(doc) {
  const one = e => {
    rendered.push(e);
    const i = doc.querySelectorAll("pre.pseudocode").indexOf(e);
    if ((cfg.unrenderable || []).includes(i)) throw new Error("ParseError");
  };
  return { renderElement: one, renderClass: c => [...doc.querySelectorAll("." + c)].forEach(one), renderToString: () => "", ParseError: Error };
}
function visibleOwn(e) { return display(e); }

let template = null;
async function open(pageHtml) {
  beat("opening the page");
  env.errors = []; env.scrolls = 0; timers = []; toasts = []; clip = []; tips = new Set(); jqState = { tips, contents: new Map(), init: cfg.mode === "aids" }; rendered = []; warned = []; resize = [];
  if (!template || template.text !== pageHtml) {
    const d = new Document_();
    parseInto(d, `<html><head></head>${pageHtml}</html>`);
    template = { text: pageHtml, root: d.children[0] };
  }
  const doc = new Document_(), win = new Window_();
  doc.defaultView = win;
  doc.location = { href: "http://host/dir/page.html" + (cfg.search || "") + (cfg.hash || ""), hash: cfg.hash || "", pathname: "/dir/page.html", origin: "http://host", search: cfg.search || "" };
  const root = clone(template.root, doc);
  doc.childNodes.push(root); root.parentNode = doc;
  globalsFor(doc, win);
  env.appended = n => {
    if (n.localName === "script" && n.src) {
      const bad = (cfg.fail || []).some(f => n.src.includes(f));
      const arrive = () => {
        if (!bad && n.src.includes("pseudocode")) globalThis.pseudocode = win.pseudocode = algorithmsOf(doc);
        if (!bad && n.src.includes("mathjax")) win.MathJax = { ...win.MathJax, typeset() {}, typesetPromise: async () => {}, startup: { promise: Promise.resolve() } };
        const h = bad ? n.onerror : n.onload; if (h) h(new Event_("x")); else n.dispatchEvent(new Event_(bad ? "error" : "load"));
      };
      const held = (cfg.held || []).find(f => n.src.includes(f));
      if (held) held_.push([held, arrive]); else setImmediate(arrive);
    }
    if (n.classList.contains("toast")) toasts.push([n.className, n.textContent.trim().replace(/\s+/g, " ")]);
  };
  // pictures are shown when their icon is, and never change in place
  const inPicture = e => { for (let n = e.parentNode; n; n = n.parentNode) if (n.localName === "svg") return true; return false; };
  const els = walk(root).filter(e => !inPicture(e));
  held_ = [];
  const load = loader();
  const onload = await load((cfg.path || "/static/") + "onload.js");
  const opts = cfg.keys === false ? { path: "/static/", keys: false } : cfg.path ? { path: cfg.path } : undefined;
  const rootEl = cfg.root ? doc.querySelector(cfg.root) : null;
  const done = onload.namespace.onload(...(opts ? [rootEl, opts] : rootEl ? [rootEl] : []));
  if (cfg.held) { done.catch(e => env.errors.push(String(e?.stack || e))); for (let i = 0; i < 5; i++) await settle(); }
  else {
    let over = false, threw = null;
    done.then(() => { over = true; }, e => { over = true; threw = e; });
    for (let i = 0; i < 400 && !over; i++) { await settle(); if (!over && i % 8 === 7) flush(); }
    if (threw) throw threw;
    if (!over) throw new Bad("opening", "opening the page does not end");
  }
  for (let i = 0; i < 3; i++) await settle();
  resize.forEach(f => f());
  return { doc, win, els, root: rootEl ?? doc, opened: done };
}
function clone(n, doc) {
  const m = n.cloneNode(true);
  const own = x => { x.ownerDocument = doc; x.childNodes.forEach(own); };
  own(m);
  return m;
}

// --- the model: what a page is and what each action does to it ---------------------------------------

const has = (e, c) => e.words.includes(c);
function facts(p) {
  const idx = new Map(p.els.map((e, i) => [e, i]));
  const hrs = p.els.filter(e => has(e, "hr"));
  const kid = (e, c) => e.children.find(x => has(x, c));
  const F = { idx, hrs: [], byEl: new Map() };
  for (const e of hrs) {
    const menuZone = kid(e, "hr-menu-zone"), menu = menuZone && kid(menuZone, "hr-menu");
    const border = kid(e, "hr-border-zone"), dots = border && kid(border, "hr-border-dots");
    const zone = kid(e, "hr-collapse-zone"), coll = zone && kid(zone, "hr-collapse");
    const content = kid(e, "hr-content-zone");
    const items = menu ? menu.children.filter(x => has(x, "hr-menu-item")) : [];
    const enabled = c => items.find(x => has(x, c) && !has(x, "disabled"));
    const h = { e, i: idx.get(e), menuZone, menu, dots, coll, content, items, sub: has(e, "step") ? enabled("collapse-subproof") : undefined, all: enabled("collapse-steps"), link: enabled("link") };
    if (has(e, "hr-labeled")) h.rest = content.children.filter(x => !has(x, "hr-label"));
    else if (has(e, "step")) h.rest = content.children.filter(x => !has(x, "statement"));
    else h.rest = e.parentElement.children.filter(x => x !== e);
    h.controls = [coll && coll.querySelector(".icon"), h.sub && h.sub.querySelector(".icon")].filter(Boolean);
    const stepsOf = z => z ? z.children.filter(x => has(x, "step") && x.querySelector(".subproof")) : [];
    if (h.all) h.steps = has(e, "step") ? content.children.filter(x => has(x, "subproof")).flatMap(s => stepsOf(kid(s, "hr-content-zone"))) : stepsOf(content);
    F.hrs.push(h); F.byEl.set(e, h);
  }
  F.focus = p.els.filter(e => focusable(e) && e.getAttribute("tabindex") !== "-1" && p.root.contains(e) && e !== p.root);
  F.hidden0 = p.els.map(e => display(e) === "none" && !has(e, "hr-menu-zone"));
  return F;
}

// model state: collapsed (set of hr indices), alls (those showing expand-all), open (menus), active {hr: item}, focus, tips
function start() { return { C: new Set(), A: new Set(), open: new Set(), active: new Map(), focus: null, tips: new Set() }; }
const copyOf = s => ({ C: new Set(s.C), A: new Set(s.A), open: new Set(s.open), active: new Map(s.active), focus: s.focus, tips: new Set(s.tips) });

function hiddenBy(F, s) {
  const hide = new Set();
  for (const h of F.hrs) if (s.C.has(h.i)) h.rest.forEach(x => hide.add(x));
  return hide;
}
function visibleIn(F, s, p) {
  const hide = hiddenBy(F, s);
  const memo = new Map();
  const vis = e => {
    if (!(e instanceof Element_)) return true;
    if (memo.has(e)) return memo.get(e);
    let v = vis(e.parentNode) && !hide.has(e) && !F.hidden0[F.idx.get(e)];
    if (v && has(e, "hr-menu-zone")) v = s.open.has(F.idx.get(e.parentNode));
    memo.set(e, v);
    return v;
  };
  return vis;
}
function toggle(F, s, h) { if (s.C.has(h.i)) s.C.delete(h.i); else s.C.add(h.i); }
function toggleAll(F, s, h) {
  const close = !s.A.has(h.i);
  for (const st of h.steps) { const k = F.byEl.get(st); if (close) s.C.add(k.i); else s.C.delete(k.i); }
  if (close) s.A.add(h.i); else s.A.delete(h.i);
}
function linkOf(p, h) {
  const url = p.doc.location.href.split("#")[0];
  if (!has(h.e, "heading")) return url + "#" + h.e.id;
  if (has(h.e.parentElement, "level-1")) return url;
  return url + "#" + h.e.parentElement.id;
}

class Bad extends Error { constructor(key, what) { super(what); this.key = key; } }
const name = (F, e) => {
  const t = e.textContent.replace(/\s+/g, " ").trim();
  return `${e.localName}.${e.className.replace(/\s+/g, ".")}${e.id ? "#" + e.id : ""} "${t.length > 24 ? "..." + t.slice(-24) : t}"`;
};

// --- actions -------------------------------------------------------------------------------------

function actionsOf(F, s, p) {
  const vis = visibleIn(F, s, p);
  const out = [];
  if (held_.length) {
    out.push(["load", held_[0][0]]);
    // what is not set up yet is not judged
    if (held_[0][0] === "mathjax") return out;
  }
  if (cfg.clicks) {
    for (const h of F.hrs) {
      if (!vis(h.e)) continue;
      if (h.coll && vis(h.coll)) for (const t of cfg.targets || ["icon"]) out.push(["click", h.i, t]);
      if (h.dots && vis(h.dots) && cfg.menus) {
        if (cfg.menus === "whole") {
          h.items.forEach((it, k) => { if (cfg.items === "all" || /collapse-s/.test(it.className)) out.push(["menu", h.i, k]); });
        } else {
          out.push(["dots", h.i]);
          if (s.open.has(h.i)) { out.push(["leave", h.i]); h.items.forEach((it, k) => out.push(["item", h.i, k])); }
        }
      }
    }
  }
  for (const k of cfg.keyset || []) out.push(["key", k]);
  return out;
}

function fire(el, type, init) {
  const ev = new Event_(type, { bubbles: true, ...init });
  el.dispatchEvent(ev);
  return ev;
}
function mouse(el) {
  fire(el, "mousedown"); fire(el, "mousedown" === "pointerdown" ? "x" : "pointerdown");
  let n = el;
  while (n instanceof Element_ && !(focusable(n) && visible(n))) n = n.parentNode;
  document.focused = n instanceof Element_ ? n : null;
  fire(el, "mouseup");
  fire(el, "click", { button: 0, detail: 1 });
}
const CODES = { Enter: 13, ArrowUp: 38, ArrowDown: 40 };

async function doClick(el) { mouse(el); await calm(); }
async function calm() {
  await settle();
  if (env.errors.length) throw new Bad("error", `an error is raised: ${env.errors[0].split("\n").slice(0, 2).join(" ")}`);
}
function flush() { for (let n = 0; timers.length && n < 50; n++) { const t = timers; timers = []; t.forEach(x => x && x[0](...x[1])); } }

function clicked(F, s, p, el) {
  let n = el;
  const vis = visibleIn(F, s, p);
  while (n instanceof Element_ && !(focusable(n) && vis(n))) n = n.parentNode;
  s.focus = n instanceof Element_ ? F.idx.get(n) : null;
}

// performs an action on the page and on the model; returns what should have been copied and said
async function perform(F, s, p, a, checked) {
  beat(a);
  const h = typeof a[1] === "number" ? F.hrs.find(x => x.i === a[1]) : null;
  clip.length = toasts.length = 0;
  let link = null;
  const item = k => {
    const it = h.items[k];
    if (it === h.sub) toggle(F, s, h);
    else if (it === h.all) toggleAll(F, s, h);
    else if (it === h.link) link = linkOf(p, h);
  };
  switch (a[0]) {
    case "click": {
      const t = a[2] === "zone" ? h.coll : h.coll.querySelector(".icon") ?? h.coll;
      const el = a[2] === "svg" ? t.firstElementChild ?? t : t;
      await doClick(el); clicked(F, s, p, h.coll); toggle(F, s, h); break;
    }
    case "load": {
      held_.shift()[1]();
      for (let i = 0; i < 8; i++) await settle();
      resize.forEach(f => f());
      break;
    }
    case "dots": await doClick(h.dots.querySelector(".icon") ?? h.dots); clicked(F, s, p, h.dots); s.open.add(h.i); break;
    case "leave": fire(h.menu, "mouseleave", { bubbles: false }); await calm(); s.open.delete(h.i); s.active.delete(h.i); break;
    case "item": await doClick(h.items[a[2]].lastElementChild ?? h.items[a[2]]); clicked(F, s, p, h.items[a[2]]); item(a[2]); break;
    case "menu":
      await doClick(h.dots); clicked(F, s, p, h.dots); s.open.add(h.i);
      if (checked) compare(F, s, p);
      await doClick(h.items[a[2]].firstElementChild ?? h.items[a[2]]); item(a[2]);
      if (checked) compare(F, s, p);
      fire(h.menu, "mouseleave", { bubbles: false }); await calm(); s.open.delete(h.i); s.active.delete(h.i);
      break;
    case "key": {
      const before = s.focus;
      const target = p.doc.focused ?? p.doc.body;
      const down = fire(target, "keydown", { key: a[1], code: a[1], keyCode: CODES[a[1]] ?? a[1].charCodeAt(0) });
      fire(p.doc.focused ?? p.doc.body, "keyup", { key: a[1], code: a[1], keyCode: CODES[a[1]] ?? a[1].toUpperCase().charCodeAt(0) });
      await calm();
      if (p.root === p.doc || before !== null) link = keyModel(F, s, p, a[1]);
      if (["j", "k", "h", "l", "ArrowUp", "ArrowDown"].includes(a[1]) && (p.root === p.doc || before !== null) && !down.defaultPrevented) throw new Bad("default", `the browser also acts on ${a[1]}`);
      break;
    }
  }
  return link;
}

function keyModel(F, s, p, key) {
  const vis = visibleIn(F, s, p);
  const list = F.focus, n = list.length;
  const cur = s.focus === null ? null : p.els[s.focus];
  const at = list.indexOf(cur);
  const h = cur ? F.byEl.get(cur) : null;
  const got = p.doc.focused;
  const inCollapsed = e => { for (let x = e.parentNode; x instanceof Element_; x = x.parentNode) { const k = F.byEl.get(x); if (k && s.C.has(k.i)) return true; } return false; };
  const set = e => { s.focus = F.idx.get(e); };
  switch (key) {
    case "j": case "k": {
      if (at < 0) { const f = list[0]; if (f && vis(f)) set(f); return null; }
      const d = key === "j" ? 1 : n - 1;
      // the next one that is shown; what is shown inside of something collapsed may be passed over
      for (let i = (at + d) % n, c = 0; c < n; i = (i + d) % n, c++) {
        if (!vis(list[i])) continue;
        if (list[i] === got || !inCollapsed(list[i])) { set(list[i]); return null; }
      }
      return null;
    }
    case "h": case "l": {
      if (at < 0) { const f = list[0]; if (f && vis(f)) set(f); return null; }
      const d = key === "h" ? 1 : -1;
      if (has(cur, "heading")) {
        const sec = cur.parentElement;
        const sibs = sec.parentElement.children.filter(x => x.localName === "section");
        const t = sibs.includes(sec) ? sibs[sibs.indexOf(sec) + d] : undefined;
        const head = t && t.querySelector(".heading");
        if (head && focusable(head) && vis(head)) set(head);
        return null;
      }
      for (let i = at + d; i >= 0 && i < n; i += d) if (list[i].parentElement === cur.parentElement && vis(list[i])) { set(list[i]); return null; }
      return null;
    }
    case "H": if (list[0] && vis(list[0])) set(list[0]); return null;
    case ".": if (h && h.menuZone) { if (s.open.has(h.i)) { s.open.delete(h.i); s.active.delete(h.i); } else s.open.add(h.i); } return null;
    case ",": if (h && (h.coll || h.sub)) toggle(F, s, h); return null;
    case ";": if (h && h.all) toggleAll(F, s, h); return null;
    case "i": if (cur && has(cur, "tooltipstered")) { if (s.tips.has(s.focus)) s.tips.delete(s.focus); else s.tips.add(s.focus); } return null;
    case "ArrowUp": case "ArrowDown": {
      if (!h || !s.open.has(h.i) || !h.items.length) return null;
      const k = s.active.get(h.i);
      s.active.set(h.i, k === undefined ? 0 : (k + (key === "ArrowDown" ? 1 : h.items.length - 1)) % h.items.length);
      return null;
    }
    case "Enter": {
      if (!h || !s.active.has(h.i)) return null;
      const it = h.items[s.active.get(h.i)];
      if (it === h.sub) toggle(F, s, h);
      else if (it === h.all) toggleAll(F, s, h);
      else if (it === h.link) return linkOf(p, h);
    }
  }
  return null;
}

// --- comparing the page with the model -----------------------------------------------------------------

function compare(F, s, p) {
  const vis = visibleIn(F, s, p);
  const seen = new Map([[p.doc, true]]);
  for (const e of p.els) {
    const have = (seen.get(e.parentNode) ?? visible(e.parentNode)) && display(e) !== "none" && e.style_?.visibility !== "hidden";
    seen.set(e, have);
    const want = vis(e);
    if (want !== have) {
      const menu = has(e, "hr-menu-zone");
      throw new Bad(menu ? "menu" : want ? "lost" : "shown", `${name(F, e)} is ${have ? "shown" : "hidden"}`);
    }
  }
  for (const h of F.hrs) {
    const shut = s.C.has(h.i);
    for (const c of h.controls) {
      if (has(c, shut ? "collapse" : "expand") || !has(c, shut ? "expand" : "collapse")) throw new Bad("icon", `the control of ${name(F, h.e)} has icon ${c.className} when ${shut ? "collapsed" : "expanded"}`);
      picture(c, shut ? "expand" : "collapse", F, h);
      const t = c.nextElementSibling;
      if (t && has(t, "hr-menu-item-text") && t.textContent.trim() !== (shut ? "Expand" : "Collapse")) throw new Bad("icon-text", `the control of ${name(F, h.e)} says ${t.textContent.trim()}`);
    }
    if (h.all) {
      const c = h.all.querySelector(".icon"), all = s.A.has(h.i) ? "expand-all" : "collapse-all";
      if (!has(c, all) || has(c, s.A.has(h.i) ? "collapse-all" : "expand-all")) throw new Bad("icon", `the collapse all entry of ${name(F, h.e)} has icon ${c.className}, not ${all}`);
      picture(c, all, F, h);
      const t = c.nextElementSibling;
      if (t && t.textContent.trim() !== (s.A.has(h.i) ? "Expand all" : "Collapse all")) throw new Bad("icon-text", `the collapse all entry of ${name(F, h.e)} says ${t.textContent.trim()}`);
    }
    h.items.forEach((it, k) => {
      if (has(it, "active") !== (s.active.get(h.i) === k)) throw new Bad("active", `menu entry ${k} of ${name(F, h.e)} is ${has(it, "active") ? "" : "not "}active`);
    });
  }
  const f = p.doc.focused ? F.idx.get(p.doc.focused) : null;
  if (cfg.keyset && f !== s.focus) throw new Bad("focus", `the focus is on ${f === null ? "nothing" : name(F, p.els[f])}, not on ${s.focus === null ? "nothing" : name(F, p.els[s.focus])}`);
  const t = [...tips].map(e => F.idx.get(e)).sort().join();
  if (cfg.keyset && t !== [...s.tips].sort().join()) throw new Bad("tooltip", `tooltips open on ${t || "nothing"}, not ${[...s.tips]}`);
}

// every icon of a kind has the same picture wherever and whenever it is shown
let pictures;
const norm = e => e.innerHTML.replace(/>\s+</g, "><").trim();
function picture(c, kind, F, h) {
  if ((cfg.missing || []).includes("icons.js")) return;
  const now = norm(c);
  if (!now) throw new Bad("icon", `the ${kind} icon of ${name(F, h.e)} is empty`);
  const other = { collapse: "expand", expand: "collapse", "collapse-all": "expand-all", "expand-all": "collapse-all" }[kind];
  if (pictures.get(other) === now) throw new Bad("icon", `the icon ${kind} of ${name(F, h.e)} looks like ${other}`);
  if (!pictures.has(kind)) pictures.set(kind, now);
  else if (pictures.get(kind) !== now) throw new Bad("icon", `the icon ${kind} of ${name(F, h.e)} has another picture than elsewhere`);
}

function told(link) {
  if (link === null) {
    if (clip.length || toasts.length) throw new Bad("copied", `copied ${clip}, said ${toasts.map(t => t[1])}`);
    return;
  }
  const good = !cfg.clipboard;
  const says = toasts.length === 1 && toasts[0][0].split(" ").includes(good ? "success" : "error");
  if (!says || (good ? clip.length !== 1 || clip[0] !== link : clip.length)) throw new Bad("copied", `copied ${JSON.stringify(clip)}, not ${link}; said ${toasts.map(t => t.join(" "))}`);
  const id = link.split("#")[1];
  if (link.includes("#") && (!id || !document.getElementById(decodeURIComponent(id)))) throw new Bad("dead-link", `the link ${link} leads nowhere`);
}

function canon(p) {
  const out = [];
  const go = n => {
    if (n.localName === "svg") { out.push(n.canon_ ??= html(n).replace(/\s+/g, " ")); return; }
    if (n.nodeType === 3) { const t = n.data.trim(); if (t) out.push(t); return; }
    const d = display(n);
    out.push("<" + n.localName);
    for (const [k, v] of n.attrs) if (k !== "class" && k !== "style") out.push(k + "=" + v);
    if (n.words.length) out.push([...n.words].sort().join(" "));
    if (d === "none") out.push("none");
    if (n.style_) for (const [k, v] of Object.entries(n.style_.props)) if (k !== "display") out.push(k + ":" + v);
    n.childNodes.forEach(go);
    out.push(">");
  };
  go(p.doc.documentElement);
  return out.join("\n");
}

// --- search ------------------------------------------------------------------------------------------

const lacking = () => [cfg.fail, cfg.missing, cfg.lacks, cfg.unrenderable].some(x => x?.length);
function keyOf(p, F) { return canon(p) + "\n" + held_.map(x => x[0]).join() + "|" + (p.doc.focused && cfg.keyset ? F.idx.get(p.doc.focused) : -1) + "|" + [...tips].map(e => F.idx.get(e)).sort().join(); }

// One action, with everything checked before and after what it starts is done.
async function step(c, a) {
  const had = c.p.doc.focused;
  const link = await perform(c.F, c.s, c.p, a, true);
  compare(c.F, c.s, c.p);
  told(link);
  if (timers.length) {
    flush();
    await calm();
    compare(c.F, c.s, c.p);
  }
  if (find(c.p.doc, "toast")) throw new Bad("toast", "a message is never taken away");
  if (a[0] === "key" && had && !c.p.doc.focused) throw new Bad("focus", `${a[1]} loses the focus`);
}
const find = (p, c) => walk(p.documentElement).some(e => has(e, c));

const INVERSE = { j: "k", k: "j", h: "l", l: "h", ArrowUp: "ArrowDown", ArrowDown: "ArrowUp" };
const inverse = a => a[0] === "key" ? ["key", INVERSE[a[1]] ?? a[1]] : a[0] === "dots" ? ["leave", a[1]] : a[0] === "leave" ? ["dots", a[1]] : a;

// Walks over the states of the page: takes an action not taken yet from the present state, or the shortest known way to a state that has one.
// The page is opened anew only after a violation, or where no way is known.
async function explore(page, config) {
  // what arrives late must leave the page as if it had come at once
  const early = config.held && await explore(page, { ...config, held: undefined, keep: true });
  cfg = config; pictures = new Map();
  if (cfg.mode === "aids") return aids(page);
  const bad = new Map();
  let transitions = 0, moves = 0, opened = 0, cut = false, failures = 0;
  const states = new Map();
  const arrive = (c, from, a) => {
    const k = keyOf(c.p, c.F);
    let st = states.get(k);
    const d = from ? from.d + 1 : 0;
    if (!st) {
      if (states.size >= (cfg.max ?? 1e9)) cut = true;
      st = { k, acts: cut ? [] : actionsOf(c.F, c.s, c.p), next: 0, out: [], d, from, a, dom: k.slice(0, k.lastIndexOf("\n")) };
      states.set(k, st);
    } else if (d < st.d) { st.d = d; st.from = from; st.a = a; }
    return st;
  };
  const wayTo = st => { const w = []; for (; st.from; st = st.from) w.unshift(st.a); return w; };
  const note = async (e, way, history) => {
    if (!(e instanceof Bad)) throw e;
    failures++;
    if (!bad.has(e.key)) {
      // the shortest way, if it fails too
      let path = way;
      try {
        const c = await fresh();
        for (const a of way) await step(c, a);
        path = history;
      } catch (x) { if (!(x instanceof Bad)) throw x; if (x.key !== e.key) path = history; }
      bad.set(e.key, { key: e.key, what: e.message, path, n: 0 });
    }
    bad.get(e.key).n++;
  };
  const fresh = async () => { opened++; const p = await open(page); return { p, F: facts(p), s: start() }; };
  let c, controls = 0;
  try {
    try { c = await fresh(); } catch (e) { throw e instanceof Bad ? e : new Bad("setup", `the page cannot be set up: ${String(e?.stack || e).slice(0, 300)}`); }
    controls = c.F.hrs.filter(h => h.controls.length).length;
    const seriously = warned.filter(w => !lacking() || !/FAILED/.test(w));
    if (seriously.length) throw new Bad("setup", `the page cannot be set up: ${seriously[0].slice(0, 300)}`);
    if (env.errors.length) throw new Bad("setup", `an error is raised: ${env.errors[0].slice(0, 300)}`);
    compare(c.F, c.s, c.p);
  } catch (e) {
    if (!(e instanceof Bad)) throw e;
    return { states: 1, transitions: 0, moves, opened, controls, closed: false, cut, bad: [{ key: e.key, what: e.message, path: [], n: 1 }] };
  }
  const first = arrive(c, null);
  let at = first, history = [];
  const limit = cfg.depth ?? 1e9;
  const ready = st => st.next < st.acts.length && st.d < limit;
  const reset = async () => { c = await fresh(); at = first; history = []; };
  const begun = Date.now();
  while (failures < 40) {
    Atomics.add(count, 0, 1);
    // a page with far more states than the model knows of is not explored to the end
    if (Date.now() - begun > (failures ? 30e3 : 240e3)) { cut = true; break; }
    let a, untried = false;
    if (at && ready(at)) { a = at.acts[at.next++]; untried = true; }
    else {
      // the shortest way over known transitions to a state with something to try
      const how = new Map([[at, null]]);
      const q = at ? [at] : [];
      let goal = null;
      for (let i = 0; i < q.length && !goal; i++) for (const [x, to] of q[i].out) if (to && !how.has(to)) {
        how.set(to, [q[i], x]); q.push(to);
        if (ready(to)) { goal = to; break; }
      }
      const again = !goal && at && at.d >= limit && at.a && at.acts.find(x => String(x) === String(inverse(at.a)));
      if (again && !at.out.length) { a = again; untried = true; }
      else if (!goal) {
        if (at === first && !history.length) break;
        if (![...states.values()].some(ready)) break;
        await reset();
        const left = [...states.values()].filter(ready).sort((x, y) => x.d - y.d)[0];
        let ok = true;
        for (const x of wayTo(left)) {
          moves++; history.push(x);
          const from = at;
          try { await step(c, x); } catch (e) { await note(e, [...wayTo(from), x], history); ok = false; break; }
          at = arrive(c, from, x);
          if (!at) { ok = false; break; }
        }
        if (!ok || at !== left) { left.next = left.acts.length; await reset(); }
        continue;
      }
      if (goal) {
        const way = [];
        for (let g = goal; how.get(g); g = how.get(g)[0]) way.unshift(how.get(g)[1]);
        a = way[0];
      }
    }
    const from = at;
    history.push(a);
    if (untried) transitions++; else moves++;
    try { await step(c, a); } catch (e) { await note(e, [...wayTo(from), a], [...history]); from.out = from.out.filter(o => o[0] !== a); await reset(); continue; }
    const to = arrive(c, from, a);
    if (untried) from.out.push([a, to]);
    at = to;
    if (!at) await reset();
  }
  const closed = ![...states.values()].some(st => st.next < st.acts.length) && !cut && !failures;
  if (early?.closed) for (const st of states.values()) {
    if (st.k.slice(st.dom.length + 1).startsWith("|") && !early.keep.has(st.k)) {
      bad.set("late", { key: "late", what: "the page is not as if the script had come at once", path: wayTo(st), n: (bad.get("late")?.n ?? 0) + 1 });
    }
  }
  if (cfg.undo && !failures) {
    // every state leads back to the page as it was
    const back = new Map();
    for (const st of states.values()) for (const [, to] of st.out) if (to) (back.get(to) ?? back.set(to, []).get(to)).push(st);
    const good = new Set([...states.values()].filter(st => st.dom === first.dom));
    const q = [...good];
    while (q.length) for (const st of back.get(q.pop()) ?? []) if (!good.has(st)) { good.add(st); q.push(st); }
    for (const st of states.values()) if (!good.has(st)) {
      try {
        const r = await fresh();
        const was = canon(r.p);
        for (const x of wayTo(st)) await step(r, x);
        await undo(r.F, r.s, r.p, was);
      } catch (e) { await note(e, wayTo(st), wayTo(st)); if (failures > 5) break; }
    }
  }
  return { states: states.size, transitions, moves, opened, controls, closed, cut, bad: [...bad.values()], keep: cfg.keep ? new Set(states.keys()) : undefined };
}

// everything that a page does for its reader without being asked
async function aids(page) {
  const out = new Map();
  const note = (key, what) => { if (!out.has(key)) out.set(key, { key, what, path: [], n: 0 }); out.get(key).n++; };
  let p;
  try { p = await open(page); } catch (e) {
    return { states: 1, transitions: 1, controls: 0, closed: true, bad: [{ key: e instanceof Bad ? e.key : "setup", what: e instanceof Bad ? e.message : `the page cannot be set up: ${String(e?.stack || e).slice(0, 300)}`, path: [], n: 1 }] };
  }
  for (const w of warned) if (!lacking() || !/FAILED/.test(w)) note("setup", `the page cannot be set up: ${w.slice(0, 300)}`);
  for (const e of env.errors) note("setup", `an error is raised: ${e.slice(0, 300)}`);
  env.errors.length = 0;
  beat("tooltips");
  const gone = f => (cfg.missing || []).includes(f);
  const t = gone("tooltips.js") || cfg.lacks?.length ? { bad: [], n: 0 } : tooltips(p, jqState, Bad);
  t.bad.forEach(b => note(...b));
  if (!(cfg.fail || []).includes("pseudocode")) algorithms(p, rendered).forEach(b => note(...b));
  beat("minimaps");
  const m = gone("minimap.js") ? { bad: [], n: 0 } : minimaps(p, cfg.depth ?? 2);
  m.bad.forEach(b => note(...b));
  return { states: 1, transitions: t.n + m.n + 1, controls: t.n + m.n, closed: true, bad: [...out.values()] };
}

// everything can be expanded again, by the controls that are shown, to the page as it was
async function undo(F, s, p, first) {
  for (let n = 0; n < 60; n++) {
    const vis = visibleIn(F, s, p);
    const all = F.hrs.find(h => h.all && s.A.has(h.i) && vis(h.e));
    const one = F.hrs.find(h => s.C.has(h.i) && vis(h.e) && (h.coll || h.sub));
    const open_ = F.hrs.find(h => s.open.has(h.i) && vis(h.e));
    if (open_ && !all && !one) await perform(F, s, p, ["leave", open_.i], false);
    else if (all) await perform(F, s, p, ["menu", all.i, all.items.indexOf(all.all)], false);
    else if (one) await perform(F, s, p, one.coll ? ["click", one.i, "icon"] : ["menu", one.i, one.items.indexOf(one.sub)], false);
    else break;
    flush();
  }
  if (s.C.size) throw new Bad("stuck", `${name(F, p.els[[...s.C][0]])} cannot be expanded again`);
  compare(F, s, p);
  const now = canon(p);
  if (now !== first) {
    let i = 0;
    while (now[i] === first[i]) i++;
    throw new Bad("undone", `expanded again, the page is not as it was: ${now.slice(Math.max(0, i - 60), i + 100)} for ${first.slice(Math.max(0, i - 60), i + 100)}`);
  }
}

process.on("unhandledRejection", e => env.errors.push(String(e?.stack || e)));
for (const page of job.pages) {
  const res = await explore(page.html, page.config);
  real.log(JSON.stringify(res));
}
process.exit(0);
