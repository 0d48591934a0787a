// What a page does for its reader without being asked: tooltips of references, algorithms, and the minimap that follows the reader.
import { Event_, display, env, walk } from "./dom.mjs";

const ZONES = ["hr-menu-zone", "hr-info-zone", "hr-collapse-zone", "hr-border-zone", "hr-spacer-zone"];
const has = (e, c) => e.words.includes(c);
const join = s => s.replace(/\s+/g, "");
// the text of a node without that of the controls around it
function text(n) {
  if (n.nodeType === 3) return n.data;
  if (n.nodeType === 1 && ZONES.some(z => has(n, z))) return "";
  return n.childNodes.map(text).join("");
}
const textOf = x => join(typeof x === "string" ? x : x?.nodeType ? text(x) : x ? [...x].map(text).join("") : "");
const up = (e, f) => { for (let n = e; n && n.nodeType === 1; n = n.parentNode) if (f(n)) return n; return null; };
const first = (e, f) => walk(e).find(f);

// what a reader may expect to see of what a reference points to: exact text, or a beginning of it that has at least some text
function expected(t) {
  const tag = t.localName;
  if (tag === "section") {
    const head = first(t, e => /^h[1-6]$/.test(e.localName));
    return { whole: textOf(t), least: head ? textOf(head) : "" };
  }
  if (has(t, "step")) {
    const st = first(t, e => has(e, "statement"));
    return { exact: textOf(st ?? t) };
  }
  if (tag === "dt") return { exact: textOf(t.nextElementSibling) };
  if (tag === "a" || tag === "span" && !has(t, "math")) return { exact: textOf(t.parentNode) };
  return { exact: textOf(t) };
}
const short = s => s.length > 60 ? s.slice(0, 60) + "..." : s;

export function tooltips(p, state, Bad) {
  const bad = [];
  let n = 0;
  for (const f of state.later ?? []) f();
  const before = env.errors.length;
  const wrapper = p.els.filter(e => e.localName === "a" && has(e, "reference") && up(e, x => has(x, "manuscriptwrapper")));
  for (const a of wrapper) {
    const href = a.getAttribute("href") ?? "";
    n++;
    const where = `${a.localName} ${href} "${short(join(a.textContent))}"`;
    if (!href.startsWith("#")) continue;
    if (!has(a, "tooltipstered")) { bad.push(["tooltip-missing", `${where} has no tooltip`]); continue; }
    const got = textOf(state.contents.get(a));
    if (href === "#") { if (!/nolabel/.test(got) || !has(a, "error")) bad.push(["tooltip-unlabelled", `${where} shows ${short(got)}`]); continue; }
    const t = p.doc.getElementById(href.slice(1));
    if (!t) continue;
    const want = expected(t);
    const kind = `${t.localName}.${t.words.filter(w => w !== "tooltipstered").join(".")}`;
    const ok = want.exact !== undefined ? got === want.exact : want.whole.startsWith(got) && got.length >= want.least.length;
    for (const c of ["hr-menu-zone", "hr-collapse-zone", ...(["figure", "table"].includes(t.localName) ? [] : ["hr-info-zone"])]) {
      const c0 = state.contents.get(a);
      const all = (c0?.nodeType ? [c0] : c0 && typeof c0 !== "string" ? [...c0] : []).flatMap(x => x.nodeType === 1 ? walk(x) : []);
      if (all.some(e => has(e, c))) bad.push(["tooltip-controls " + kind + c, `${where} shows controls`]);
    }
    if (!ok) bad.push(["tooltip " + kind, `${where} shows "${short(got)}", not "${short(want.exact ?? want.whole)}"`]);
  }
  return { bad, n };
}

// every algorithm is rendered, once
export function algorithms(p, rendered) {
  const want = p.els.filter(e => e.localName === "pre" && has(e, "pseudocode"));
  const bad = [];
  want.forEach((e, i) => {
    const k = rendered.filter(x => x === e || typeof x === "string" && x === e.id).length;
    if (k !== 1) bad.push(["algorithm", `algorithm ${i + 1} of ${want.length} is rendered ${k} times`]);
  });
  return bad;
}

// The minimap: what is highlighted after pointing at an entry of the table of contents, or after scrolling.
export function minimaps(p, depth) {
  const bad = [];
  let n = 0;
  const items = p.els.filter(e => e.localName === "li" && has(e, "item") && up(e, x => has(x, "contents")));
  const wrap = c => p.els.find(e => has(e, c) );
  const all = walk(p.doc.documentElement);
  const maps = all.filter(e => has(e, "minimap"));
  const floating = maps.find(m => up(m, x => has(x, "float-minimap-wrapper")));
  const inToc = maps.find(m => m !== floating);
  const marks = m => walk(m).filter(e => e.localName === "circle" && !e.hasAttribute("fill"));
  const height = m => { const v = walk(m).find(e => e.localName === "svg"); return Number(v.getAttribute("viewBox").split(/\s+/)[3]); };
  const stop = (name, k) => all.find(e => e.getAttribute("id") === `stop-follow-${name}-${k}`);
  const lit = (m, name) => {
    const a = [1, 2].map(k => stop(name, k)?.getAttribute("offset"));
    const y = a.map(x => parseFloat(x) / 100 * height(m));
    if (Math.abs(y[0] - y[1]) > 0.01) return null;
    return marks(m).filter(c => Number(c.getAttribute("cy")) <= y[0]).length;
  };
  const errors = what => { if (env.errors.length) { bad.push(["minimap-error", `${what}: ${env.errors[0].split("\n")[0]}`]); env.errors.length = 0; } };
  // pointing, in every order of two
  const point = i => {
    const li = items[i];
    li.dispatchEvent(new Event_("mouseenter", { bubbles: false }));
    errors(`pointing at entry ${i + 1}`);
    n++;
    if (inToc && items.length === marks(inToc).length) {
      const k = lit(inToc, "mouse");
      if (k !== i + 1) bad.push(["minimap-point", `pointing at entry ${i + 1} of ${items.length} highlights ${k}`]);
    }
  };
  const focus = i => {
    const a = walk(items[i]).find(e => e.localName === "a" && has(e, "reference"));
    if (!a) return;
    a.dispatchEvent(new Event_("focus", { bubbles: false }));
    errors(`focusing entry ${i + 1}`);
    n++;
    const own = up(a, x => items.includes(x));
    if (inToc && items.length === marks(inToc).length) {
      const k = lit(inToc, "mouse");
      if (k !== items.indexOf(own) + 1) bad.push(["minimap-point", `focusing entry ${i + 1} of ${items.length} highlights ${k}`]);
    }
  };
  for (let i = 0; i < items.length; i++) for (let j = 0; j < items.length; j++) { point(i); focus(j); point(j); }
  // scrolling: each block of text is at the middle of the window in turn
  const sections = p.els.filter(e => e.localName === "section");
  const order = p.els;
  const at = new Map(order.map((e, i) => [e, i]));
  const last = new Map();
  for (const e of order) { const s = walk(e); last.set(e, s.length); }
  const place = (here, tocSeen) => {
    const top = at.get(here);
    env.rect = e => {
      const svg = up(e, x => has(x, "minimap"));
      if (svg) {
        const m = svg, H = height(m);
        const base = m === inToc ? (tocSeen ? 300 : -5000) : 100;
        if (e === m) return { top: base, height: H };
        if (e.localName === "circle") { const cy = Number(e.getAttribute("cy")), r = Number(e.getAttribute("r")); return { top: base + cy - r, height: 2 * r }; }
        return { top: base, height: H };
      }
      // one pixel times 40 per element of the text, the element at the reader's place just above the middle
      const i = at.get(e);
      if (i === undefined) return { top: 0, height: 20 };
      return { top: 299 + (i - top) * 40, height: Math.max(40, (lastIn(e) - i + 1) * 40) };
    };
  };
  const memo = new Map();
  const lastIn = e => { if (!memo.has(e)) { const w = walk(e).filter(x => at.has(x)); memo.set(e, Math.max(...w.map(x => at.get(x)))); } return memo.get(e); };
  for (const m of maps) m.offsetHeight = m.clientHeight = height(m);
  const scroll = (s, tocSeen) => {
    place(s, tocSeen);
    p.win.dispatchEvent(new Event_("scroll"));
    errors(`scrolling to ${s.id || "a section"}`);
    n++;
    if (!floating || !inToc) return;
    if ((display(floating) === "none") !== tocSeen) bad.push(["minimap-shown", `the floating minimap is ${tocSeen ? "shown" : "hidden"} while that of the contents is ${tocSeen ? "" : "not "}in view`]);
    if (tocSeen) return;
    const ms = marks(floating);
    const link = m => up(m, x => x.localName === "a")?.getAttribute("href");
    const idx = ms.findIndex(m => s.id && link(m) === "#" + s.id);
    const k = lit(floating, "scroll");
    if (idx >= 0 && k !== idx + 1) bad.push(["minimap-scroll", `with section ${s.id}, the ${idx + 1}. of ${ms.length}, in view ${k} are highlighted`]);
    if (!s.id && k > 0 && has(s, "level-1")) bad.push(["minimap-scroll", `with the start in view ${k} are highlighted`]);
  };
  const views = sections.flatMap(s => [[s, false], [s, true]]);
  for (const a of views) for (const b of depth > 1 ? views : [a]) { scroll(...a); if (b !== a) scroll(...b); }
  env.rect = null;
  return { bad, n };
}
