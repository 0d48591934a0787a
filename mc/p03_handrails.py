"""P03: the handrails view is the plain page plus exactly the right controls."""
import p02_words
from core import Result, Violation
from docmodel import H, P, T, doc, emit, mget
from families import (BLOCKS, LIST, MB, PROOF, STEP, THM, build, copies, twins, legal, relabel, sequences)
from p20_blocks import HOSTS, NESTABLE, host
from project import firstdiff
from views import neutral, page, whole
from refrender import Reference

PROPERTY = "P03"
RULE = ("all sequences of block templates (including labelled, titled, numbered, unnumbered and icon-bearing ones), "
        "all nestings of two hosts, all pairs of inline tags in every container: both views are rendered, the "
        "handrails view is stripped of its controls and compared with the plain one, and the controls are compared "
        "one by one with those the documentation gives each kind of unit; trivial: a page without units")
ASSUMPTIONS = ["menu titles of unnumbered units are not compared (the existing tests fix them as '... None')"]

ICON = ("icon", "star")
EXTRA = {
    "thmi": THM("theorem", P("ti@"), icon="star", label="ti@"),
    "remi": THM("remark", P("ri@"), icon="heart"),
    "exri": THM("exercise", P("ri@"), label="ex@"),
    "prop": THM("proposition", P("pr@"), MB("q_@", ("label", "pq@")), title="Tit@"),
    "sketchi": ("sketch", (P("si@"),), (ICON, ("label", "si@"))),
    "proofi": PROOF(STEP(P("pi@"), label="pi@"), icon="alert", label="pl@"),
    "proofs": PROOF(STEP(P("s1@"), sub=(STEP(P("s2@"), label="s2l@"), STEP(P("s3@"), sub=(STEP(P("s4@")),)))), STEP(P("s5@"), sub=("p", (P("s6@"),)))),
    "h2i": ("head", 2, "Icon@", (ICON,)),
    "h3i": ("head", 3, "Icos@", (("label", "hi@"), ICON)),
    "pi": P("ip@", meta=(("label", "ip@"), ICON)),
    "abs0": ("abstract", (P("a0@"),), ()),
    "absl": ("abstract", (P("a1@"),), (("label", "ab@"),)),
    "authorl": ("author", (("name", "Nl@"), ("label", "au@"))),
    "author0": ("author", ()),
    "author2": ("author", (("email", "o@x"),)),
    "mbi": MB("m_@", ("label", "mi@"), ("types", ("va",))),
    "mbnn": MB("n_@", ("nonum", True), ("label", "nn@")),
    "claimi": P("ca@", MB("k_@", ("isclaim", True)), T("kb@")),
}
TABLE = {**BLOCKS, **EXTRA}
# What a unit's menu offers: (collapse, collapse all); None: no such entry, False: disabled.
NOTHING = (None, None)


def menu_of(zone):
    """(title, [(entry, enabled, text)...]) of a menu zone, or None when it is empty."""
    title, entries = "", []
    for x in zone.walk():
        if x.has("hr-menu-label"):
            title = " ".join(x.text().split())
        if x.has("hr-menu-item"):
            what = [c for c in x.classes if c not in ("hr-menu-item", "disabled")]
            icon = [c for y in x.walk() if y.has("icon") for c in y.classes if c != "icon"]
            entries.append((what[0] if what else "", "disabled" not in x.classes, " ".join(x.text().split()), icon[0] if icon else ""))
    return (title, tuple(entries)) if entries or title else None


ORDER = ("hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-content-zone", "hr-info-zone")


def zone_of(e):
    z = [c for c in e.classes if c in ORDER]
    return z[0] if z else None


def units(root, src):
    out = []
    for e in root.walk():
        if zone_of(e) and "hr" not in e.parent.classes:
            raise Violation("homeless", f"{e!r} lies in {e.parent!r}, which has no handrail", src)
        if "hr" not in e.classes:
            continue
        zones = [zone_of(k) for k in e.els if zone_of(k)]
        stray = [k for k in e.els if not zone_of(k) and not k.has("halmos")]
        want = list(ORDER)
        if zones != want:
            raise Violation("zones", f"the zones of {e!r} are {zones}, not one of each in order", src)
        if stray:
            raise Violation("stray", f"{stray[0]!r} lies outside of the zones of {e!r}", src)
        z = {zone_of(k): k for k in e.els}
        info = z["hr-info-zone"]
        icons = [c for y in info.walk() if y.has("icon") for c in y.classes if c != "icon"]
        links = tuple(y.attrs.get("href") for y in info.walk() if y.tag == "a")
        kind = [c for c in e.classes if c in KINDS]
        if e.has("heading"):
            hs = [k for k in z["hr-content-zone"].walk() if k.tag in ("h1", "h2", "h3", "h4")]
            if len(hs) != 1:
                raise Violation("heading", f"{len(hs)} headings in one unit", src)
            kind = ["heading", hs[0].tag, " ".join(hs[0].text().split())]
        if not kind:
            kind = ["bibitem"]
        dots = any(x.has("hr-border-dots") for x in z["hr-border-zone"].walk())
        out.append((tuple(kind[:1] if kind[0] != "heading" else kind), e.id,
                    any(x.has("hr-collapse") for x in z["hr-collapse-zone"].walk()),
                    menu_of(z["hr-menu-zone"]), dots,
                    " ".join(info.text().split()), tuple(icons), links, e.attrs.get("tabindex")))
    return out


THMS = ("theorem", "lemma", "corollary", "definition", "example", "proposition", "remark", "exercise", "problem", "porism")
KINDS = (*[t for t in THMS if t != "theorem"], "theorem", "paragraph", "author", "sketch", "proof", "subproof", "step", "mathblock")


def menu(title, link, collapse=None, every=None):
    m = []
    if collapse is not None:
        m.append(("collapse-subproof", collapse, "Collapse", "collapse"))
    if every is not None:
        m.append(("collapse-steps", every, "Collapse all", "collapse-all"))
    if link is not None:
        m.append(("link", link, "Copy link", "link"))
    m += [("", True, "Tree", "tree"), ("", True, "Source", "code")]
    return (title, tuple(m))


def expected(ref):
    out = []

    def unit(kind, id, coll, men, dots=True, info="", icons=(), links=(), tab="0"):
        out.append((kind, id, coll, men, dots, info, icons, links, tab))

    def icon(n):
        i = mget(n.meta, "icon")
        return (i,) if i else ()

    def title(n):
        return ref.reftext(n)

    def rec(n):
        k, lab = n.kind, n.label
        if k == "doc":
            t = mget(n.meta, "title")
            if t:
                unit(("heading", "h1", t), "", True, menu("Title", True))
        elif k == "head":
            text = n.b[2] if n.nonum else f"{n.full}. {n.b[2]}"
            unit(("heading", f"h{n.b[1]}", text), "", True, menu("*" if n.nonum else title(n), bool(lab)), icons=icon(n))
        elif k == "abstract":
            unit(("heading", "h3", "Abstract"), "", True, menu("Abstract", bool(lab)))
        elif k == "toc":
            unit(("heading", "h3", "Table of Contents"), "", True, menu("Contents", False))
        elif k == "bib":
            unit(("heading", "h2", "References"), "", True, menu("Bibliography", False))
        elif k == "bibitem":
            doi = dict(n.b[2]).get("doi")
            unit(("bibitem",), "", False, menu("", None), icons=("ext",), links=(f"https://doi.org/{doi}",) if doi else ())
        elif k in ("p",):
            unit(("paragraph",), lab, False, menu("Paragraph", bool(lab)), icons=icon(n))
        elif k == "author":
            unit(("author",), lab, False, menu("Author", bool(lab)), icons=icon(n))
        elif k == "thm":
            unit((n.b[1],), lab, True, menu("*" if n.nonum else title(n), bool(lab)), icons=icon(n))
        elif k == "sketch":
            unit(("sketch",), lab, True, menu("Sketch", bool(lab)), icons=icon(n))
        elif k == "proof":
            unit(("proof",), lab, True, menu("Proof", bool(lab), every=True), icons=icon(n))
        elif k == "step":
            subs = [x for x in n.kids if x.kind == "subproof"]
            deep = any(x.kind == "step" for s in subs for x in s.kids)
            unit(("step",), lab, False, menu(title(n), bool(lab), bool(subs), deep), info=f"⟨{n.full}⟩")
        elif k == "subproof":
            unit(("subproof",), "", False, None, dots=False, tab=None)
        elif k == "mb":
            unit(("mathblock",), lab, False, menu(f"Equation ({n.full})" if n.full else "Equation", bool(lab)),
                 info=f"({n.full})" if n.full else "")
        for c in n.kids:
            rec(c)
    rec(ref.root)
    return out


def cases(tier):
    quick = tier == "quick"
    names = tuple(TABLE)
    for seq in sequences(names, 2):
        yield ("seq", seq)
    for seq in copies(tier):
        yield ("seq", seq)
    for seq in twins(tier):
        yield ("twins", seq)
    if not quick:
        small = ("p", "h2", "h3", "h4", "thm", "proof", "mb", "mbn", "claim", "abs", "app", "bib", "sketch", "proofs",
                 "h2i", "pi", "author0", "con", "cite", "enum", "toc", "prop")
        for seq in sequences(small, 4, least=3):
            yield ("seq", seq)
    for w in HOSTS:
        for w2 in HOSTS:
            for b in NESTABLE + ("thmi", "sketchi", "proofi", "proofs", "pi", "mbi", "mbnn", "claimi", "prop"):
                if w2 not in ("top", "sec"):
                    yield ("nest", w, w2, b)
    for box in p02_words.boxes():
        for n in p02_words.ITEMS:
            yield ("inl", (box, (n,), ()))
    for c in p02_words.cases("quick" if quick else "thorough"):
        if len(c[1]) == 2 and (not quick or c[2] != ("\n",)) or not quick and c[0] in ("p", "item") and "\n" not in c[2]:
            yield ("inl", c)


def make(case):
    if case[0] == "twins":
        return build(case[1], alike=True)
    if case[0] == "seq":
        return build(case[1], table=TABLE, meta=(("title", "Tee"), ("label", "man")) if len(case[1]) % 2 else ())
    if case[0] == "nest":
        inner = host(case[2], relabel(TABLE[case[3]], 0))
        return doc(*[x for b in inner for x in host(case[1], b)])
    return p02_words.make(case[1])


def describe(case):
    return emit(make(case))


def run(case):
    d = make(case)
    src = emit(d)
    plain, _ = page(src, False)
    rich, _ = page(src, True)
    vs = []
    a, b = whole(neutral(plain)), whole(neutral(rich))
    if a != b:
        if whole(p02_words.dot_spaced(neutral(plain))) == b:
            vs.append(Violation("blank-before-math-dot", "math with a full stop is shown with a blank before it in one view only", src))
        else:
            vs.append(Violation("content", "the two views differ in content", src + "\n" + firstdiff(a, b)))
    if any("hr" in e.classes or e.has("hr-menu") for e in plain.walk()):
        vs.append(Violation("plain-controls", "the plain page has controls", src))
    got = units(rich, src)
    want = expected(Reference(d))
    got = [g[:3] + (("*",) + g[3][1:],) + g[4:] if i < len(want) and want[i][3] and want[i][3][0] == "*" and g[3] else g
           for i, g in enumerate(got)]
    if got != want:
        i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
        vs.append(Violation("controls", f"controls of unit {i} of the page are wrong",
                            f"{src}\nexpected {want[i:i + 1]}\nactual   {got[i:i + 1]}\n({len(want)} units expected, {len(got)} found)"))
    return Result(vs, tuple(got), execs=2, steps=len(want), trivial=not want)
