"""P25: the stylesheet shows every word, hides what is to be hidden, and adds nothing."""
import os
import re
import tempfile
from itertools import combinations

import css
import rsm
import rsmio
from core import Result, Violation
from docmodel import emit
from families import BLOCKS
from htmltree import parse
from webpage import EXTRA, forests, page as document, sequences

PROPERTY = "P25"
RULE = ("the stylesheets that a built page links to, cascaded over pages of the real renderer in both views: pages of one block and of pairs of blocks, proofs of up to "
        "3 (thorough 4) steps; each in every state of: one element hidden, one handrail collapsed, hovered or focused, one menu open, and every combination of the "
        "conditional groups of the sheets; in each state every word must be shown, what is hidden not shown, menus shown only when open, the controls of what is "
        "hovered, focused or collapsed seen, and no letter or digit generated that is not announced; trivial: none")
ASSUMPTIONS = ["what is seen follows from display, visibility, opacity, content and list-style-type; colours, sizes and places are not modelled",
               "the cascade of the check implements nesting, specificity, importance, order, inline styles and the selectors that the sheets use for these properties"]

WANTED = ("display", "visibility", "opacity", "content", "list-style-type")
MEDIA = {"img", "svg", "video", "object", "canvas"}
SHEETS = None


def linked():
    """The texts of the stylesheets that a built page links to, in order; whether a page is built at all is P16's."""
    rsmio.quiet()
    here = os.getcwd()
    out = []
    with tempfile.TemporaryDirectory() as d:
        os.chdir(d)
        try:
            rsm.make(source=":rsm:\n\nx\n\n::\n", loglevel=50)
        except Exception:  # noqa: BLE001
            pass
        finally:
            os.chdir(here)
        try:
            with open(os.path.join(d, "index.html"), encoding="utf-8") as f:
                page = f.read()
        except OSError:
            page = ""
        for m in re.finditer(r"<link\b[^>]*>", page):
            href = re.search(r"""href\s*=\s*["']?/?([^"'\s>]*)""", m.group(0))
            if "stylesheet" in m.group(0) and href and os.path.exists(os.path.join(d, href.group(1))):
                with open(os.path.join(d, href.group(1)), encoding="utf-8") as f:
                    out.append(f.read())
    return out


def prepare(tier):
    global SHEETS
    SHEETS = css.Sheets(linked(), WANTED)


def cases(tier):
    quick = tier == "quick"
    names = [*BLOCKS, *EXTRA]
    for h in (True, False):
        for seq in sequences(names, 1):
            for title in ("T", ""):
                yield (("blocks", seq, title), h)
        pairs = names if not quick else ("p", "thm", "h2", "h3", "proof", "toc", "bib", "enum", "nested", "fig", "mb")
        for seq in sequences([n for n in pairs if n in names], 2):
            if len(seq) == 2:
                yield (("blocks", seq, "T"), h)
        for n in range(2, 4 if quick else 5):
            for f in forests(n):
                for leaf in (False, True):
                    yield (("proof", f, leaf, True, "T"), h)


def describe(case):
    return emit(document(case[0])) + ("(handrails view)" if case[1] else "(plain view)")


class Seen:
    """What is seen of a page in one state."""

    def __init__(self, page, holds):
        self.page, self.holds = page, holds
        self.style = {}
        self.own = {}

    def styles(self, e):
        if id(e) not in self.style:
            self.style[id(e)] = SHEETS.styles(self.page, e, "", self.holds)
        return self.style[id(e)]

    def displayed(self, e):
        while e.tag != "#root":
            if e.tag in css.HIDDEN_TAGS or self.styles(e).get("display", "hidden" in e.attrs and "none") == "none":
                return False
            e = e.parent
        return True

    def seen(self, e):
        if not self.displayed(e):
            return False
        x = e
        while x.tag != "#root" and "visibility" not in self.styles(x):
            x = x.parent
        if x.tag != "#root" and self.styles(x)["visibility"] != "visible":
            return False
        while e.tag != "#root":
            if number(self.styles(e).get("opacity", "1")) == 0:
                return False
            e = e.parent
        return True

    def marker(self, e):
        while e.tag != "#root":
            if "list-style-type" in self.styles(e):
                return self.styles(e)["list-style-type"]
            if e.tag == "ul":
                return "disc"
            if e.tag == "ol":
                return "decimal"
            e = e.parent
        return "disc"


def number(s):
    try:
        return float(s[:-1]) / 100 if s.endswith("%") else float(s)
    except ValueError:
        return 1


def up(e, pred):
    while e is not None and e.tag != "#root":
        if pred(e):
            return e
        e = e.parent
    return None


def zone(e, *names):
    return up(e, lambda x: any(x.has(n) for n in names))


def label(e):
    return f"<{e.tag} class={e.attrs.get('class', '')!r} id={e.id!r}>"


def contents(dom):
    """The elements that carry words or pictures."""
    return [e for e in dom.walk() if e.tag in MEDIA or any(isinstance(k, str) and k.strip() for k in e.kids)]


def look(page, els, words, holds, what, fail, full=True):
    """Everything about one state."""
    s = Seen(page, holds)
    for e in words:
        menu = zone(e, "hr-menu-zone")
        if menu is not None:
            if id(menu) not in page.style and s.displayed(e):
                fail("menu", f"the menu is shown although it is closed: {label(e)}", what)
            elif id(menu) in page.style and not s.seen(e):
                fail("menu", f"the entry of the open menu is not shown: {label(e)}", what)
        elif zone(e, "hr-collapse-zone", "hr-border-zone", "hr-spacer-zone"):
            continue
        elif up(e, lambda x: "hide" in page.classes(x)):
            continue
        elif e.tag not in css.HIDDEN_TAGS and not s.seen(e):
            fail("words", f"what is written is not shown: {label(e)}", what)
    if not full:
        return
    for e in els:
        for elem in ("::before", "::after"):
            st = SHEETS.styles(page, e, elem, holds)
            c = st.get("content", "none")
            if c in ("none", "normal") or st.get("display") == "none" or not re.search(r"[^\W_]", c.replace("\\", "")):
                continue
            h = e.parent
            if e.has("hr-content-zone") and {"step", "hr-collapsed"} <= page.classes(h) and re.fullmatch(r"""["'][\w ]*hidden[\w ]*["']""", c):
                continue
            fail("generated", f"the page shows {c} at {label(e)}{elem}, which nobody wrote", what)
        if e.tag == "li":
            kind = next((k for k in ("enumerate", "itemize", "bibliography") if e.parent.has(k)), "")
            mark = s.marker(e)
            if kind == "enumerate" and mark in ("none", "disc", "circle", "square"):
                fail("marker", f"the item of an enumeration has no number: {label(e)}", what)
            if kind == "bibliography" and mark != "none":
                fail("marker", f"the entry has a marker besides its number: {label(e)}", what)


def run(case):
    doc, h = case
    src = emit(document(doc))
    dom = parse(rsm.render(source=src, handrails=h, loglevel=50))
    els = [e for e in dom.walk() if e.tag != "#root"]
    words = contents(dom)
    found = {}

    def fail(key, text, what):
        found.setdefault(key, Violation(key, f"{text} ({what or 'as loaded'}; {'handrails' if h else 'plain'} page)", src))

    states = 0
    for n in range(len(SHEETS.conds) + 1):
        for holds in combinations(SHEETS.conds, n):
            if 1 < n < len(SHEETS.conds) - 1:
                continue
            states += explore(dom, els, words, holds, fail)
    return Result(list(found.values()), (len(words) > 5, h), execs=states, steps=states)


def explore(dom, els, words, holds, fail):
    n = 1
    on = f"with {', '.join(holds)}" if holds else ""
    page = css.Page(dom)
    look(page, els, words, holds, on, fail)
    inside = [e for e in els if e.parent and up(e.parent, lambda x: x.has("manuscriptwrapper"))]
    for e in inside:
        n += 1
        page = css.Page(dom)
        page.plus = {id(e): {"hide"}}
        if Seen(page, holds).displayed(e):
            fail("hide", f"the class hide does not hide {label(e)}", on)
    for hr in (e for e in els if e.has("hr")):
        menu, dots, control = (part(hr, "hr-menu-zone"), part(hr, "hr-border-zone", "hr-border-dots"), part(hr, "hr-collapse-zone", "hr-collapse"))
        for hover, focus, collapsed in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 0), (1, 1, 1)):
            if collapsed and control is None:
                continue
            n += 1
            page = css.Page(dom)
            if hover:
                x = hr
                while x is not None:
                    page.hover.add(id(x))
                    x = x.parent
            if focus:
                page.focus.add(id(hr))
            if collapsed:
                page.plus = {id(hr): {"hr-collapsed"}}
            what = f"{on} {label(hr)}{' hovered' * hover}{' focused' * focus}{' collapsed' * collapsed}"
            look(page, els if collapsed else (), words, holds, what, fail, full=bool(collapsed))
            s = Seen(page, holds)
            if (hover or focus) and dots is not None and not s.seen(dots):
                fail("dots", "the handrail's control of its menu is not seen", what)
            if control is not None and not s.seen(control):
                fail("control", "the control that collapses and expands is not seen", what)
        if menu is not None:
            n += 1
            page = css.Page(dom)
            page.style = {id(menu): "display: block"}
            look(page, (), words, holds, f"{on} menu of {label(hr)} open", fail, full=False)
    return n


def part(hr, *path):
    e = hr
    for name in path:
        e = next((k for k in e.els if k.has(name)), None) if e is not None else None
    return e

