"""P04: automatic numbers follow the document's order and nesting."""
from itertools import product

from core import Result, Violation
from docmodel import H, P, T, THM_KINDS, doc, emit
from families import (BIB, FIG, LIST, MB, PROOF, REF, STEP, TABLE, THM, build, relabel, row, sequences)
from views import Views

PROPERTY = "P04"
RULE = ("all sequences up to the bound over an alphabet of numbered and unnumbered sections, theorem-like blocks, "
        "equations, figures, tables, algorithms, proofs, the appendix and the bibliography; all sequences of the ten "
        "theorem-like kinds; every pair of numbered items nested in every host; runs of 1 to 60 equal items.  Each "
        "document also refers to each of its items from its first paragraph.  Every number shown (headings, labels, "
        "captions, alternative texts, margins, references) is compared with a counter model; trivial: nothing numbered")
ASSUMPTIONS = ["references to unnumbered items are left out (the existing tests fix their text as 'None')"]

W = T("w")
ITEMS = {
    "h2": H(2, "S@", label="s@"), "h2n": H(2, "N@", nonum=True),
    "h3": H(3, "SS@", label="ss@"), "h3n": H(3, "NN@", nonum=True),
    "h4": H(4, "SSS@", label="sss@"), "h4n": H(4, "NNN@", nonum=True),
    "thm": THM("theorem", P("t@"), label="t@"), "thmn": THM("theorem", P("t@"), nonum=True),
    "lem": THM("lemma", P("l@"), label="l@", title="Tit@"),
    "lemn": THM("lemma", P("l@"), nonum=True, title="Tit@"),
    "mb": P("e@", MB("x", ("label", "e@")), T("z")), "mbn": P("e@", MB("x", ("nonum", True)), T("z")),
    "mbd": MB("y", ("label", "d@")),
    "clm": P("c@", MB("k", ("isclaim", True), ("label", "c@"))),
    "fig": FIG((T("cap@"),), label="f@"), "fign": FIG((T("cap@"),), nonum=True),
    "tab": TABLE((row("h"),), (row("c"),), (T("cap@"),), label="b@"),
    "tabn": TABLE((row("h"),), (row("c"),), (T("cap@"),), nonum=True),
    "alg": ("alg", "z@", (("label", "a@"),)),
    "prf": PROOF(STEP(P("p@"), label="p@"), STEP(P("q@"), sub=(STEP(P("r@"), label="r@"), STEP(P("r@"), label="rr@"))), STEP(P("v@"), label="v@")),
    "prm": PROOF(STEP(P("p@", MB("m", ("label", "pm@"))), label="pp@"), STEP(P("q@"), sub=("p", (P("o@", MB("m", ("label", "pn@"))),)), label="pq@")),
    "th2": THM("theorem", P("o@", MB("m", ("label", "tm@"))), THM("lemma", P("i@"), label="ti@"), label="to@"),
    "app": ("appendix",),
    "bib": ("bib",),
}
MAIN = ("h2", "h2n", "h3", "h3n", "h4", "thm", "thmn", "lem", "mb", "mbn", "fig", "fign", "tab", "tabn", "alg",
        "prf", "th2", "app")
LONG = ("h2", "h2n", "h3", "h3n", "h4", "thm", "mb", "fig", "app")


def labels_of(x, out):
    if isinstance(x, tuple):
        for k in x:
            labels_of(k, out)
        if len(x) == 2 and x[0] == "label":
            out.append(x[1])
    return out


def numbered(blocks, bib=()):
    refs = [k for b in blocks for k in labels_of(b, [])]
    inl = [T("Refs ")]
    for r in refs:
        inl += [REF(r), T("; ")]
    return doc(("p", tuple(inl), ()), *blocks, bib=bib)


HOSTED = ("thm", "lem", "thmn", "mb", "mbd", "clm", "fig", "tab", "alg", "prf", "prm")


def nest(host, blocks):
    if host in ("theorem", "lemma", "remark"):
        return (THM(host, *blocks, label="host"),)
    if host == "nonum":
        return (THM("theorem", *blocks, nonum=True),)
    if host == "sketch":
        return (("sketch", tuple(blocks), ()),)
    if host == "step":
        return (PROOF(STEP(*blocks), STEP(P("w"), label="hs")),)
    if host == "sub":
        return (PROOF(STEP(P("w"), sub=("p", tuple(blocks)))),)
    if host == "deep":
        return (PROOF(STEP(P("w"), sub=(STEP(*blocks, label="dd"), STEP(P("w"), sub=(STEP(*blocks[:1][:0], P("u"), label="de"),))))),)
    return tuple(blocks)


NEST = ("theorem", "nonum", "sketch", "step", "sub", "deep")


def cases(tier):
    quick = tier == "quick"
    for seq in sequences(tuple(ITEMS), 2):
        yield ("seq", seq)
    if quick:
        for seq in sequences(MAIN, 3, least=3):
            yield ("seq", seq)
    else:
        for seq in sequences(tuple(ITEMS), 3, least=3):
            yield ("seq", seq)
        for seq in sequences(MAIN, 4, least=4):
            yield ("seq", seq)
    for seq in sequences(LONG, 4 if quick else 6, least=4):
        yield ("seq", seq)
    for ks in product(THM_KINDS, repeat=2):
        for mask in range(4):
            yield ("kinds", ks, mask)
    if not quick:
        for ks in product(THM_KINDS, repeat=3):
            yield ("kinds", ks, 0)
    for h in NEST:
        for pre in ((), ("h2",), ("h2", "h3"), ("h2n",), ("app", "h2")):
            for a in HOSTED:
                for b in HOSTED:
                    yield ("nest", h, pre, (a, b))
            if not quick:
                for c in product(("thm", "mb", "mbd", "fig", "tab", "prf"), repeat=3):
                    yield ("nest", h, pre, c)
    top = 30 if quick else 60
    for name in ("h2", "h3", "h4", "thm", "mb", "fig", "tab", "alg", "prf", "app"):
        for k in range(1, top + 1):
            yield ("run", name, k)
    for k in range(1, top + 1):
        for where in ("top", "sub", "subsub"):
            yield ("steps", where, k)


def make(case):
    if case[0] == "seq":
        bib = BIB if "bib" in case[1] else ()
        return numbered([relabel(ITEMS[n], i) for i, n in enumerate(case[1])], bib)
    if case[0] == "kinds":
        return numbered([H(2, "S", label="s"), *[
            THM(k, P("w"), nonum=True) if case[2] >> i & 1 else THM(k, P("w"), label=f"k{i}")
            for i, k in enumerate(case[1])]])
    if case[0] == "nest":
        pre = [relabel(ITEMS[n], f"h{i}") for i, n in enumerate(case[2])]
        inner = [relabel(ITEMS[n], i) for i, n in enumerate(case[3])]
        tail = [relabel(ITEMS[n], f"t{i}") for i, n in enumerate(("thm", "mb"))]
        return numbered([*pre, *nest(case[1], inner), *tail])
    if case[0] == "steps":
        steps = tuple(STEP(P(f"s{i}"), label=f"st{i}") for i in range(case[2]))
        for w in ("sub", "subsub"):
            if case[1] in (w, "subsub" if w == "sub" else w):
                steps = tuple(STEP(P(f"{w}{i}"), label=f"{w}{i}") for i in range(case[2])) + (STEP(P("last"), sub=steps),)
        return numbered([PROOF(*steps), PROOF(STEP(P("z"), label="zz"))])
    _, name, k = case
    lead = {"h3": ("h2",), "h4": ("h2", "h3"), "app": ("app",)}.get(name, ())
    unit = "h2" if name == "app" else name
    return numbered([relabel(ITEMS[n], f"l{i}") for i, n in enumerate(lead)]
                    + [relabel(ITEMS[unit], i) for i in range(k)])


def describe(case):
    return emit(make(case))


def clean(s):
    return " ".join(s.split())


def shown(dom):
    """Every number a reader sees, with the thing it is shown on, in page order."""
    out = []
    for e in dom.walk():
        if e.tag in ("h2", "h3", "h4") and clean(e.text()) not in ("References", "Table of Contents", "Abstract"):
            out.append((e.tag, clean(e.text())))
        elif e.has("label"):
            out.append((e.parent.tag if e.parent else "", clean(e.text())))
        elif e.tag == "img":
            out.append(("img", e.attrs.get("alt", "")))
        elif e.has("bibitem"):
            out.append(("bib", clean(e.text()).split()[0]))
        elif e.tag == "a" and e.has("reference") and not e.has("backlink"):
            out.append(("ref", e.attrs.get("href", ""), clean(e.text())))
    return out


def margins(page):
    """Numbers in the margins of the handrails page."""
    out = []
    for e in page.walk():
        if e.has("hr") and (e.has("step") or e.has("mathblock")):
            z = [clean(k.text()) for k in e.els if k.has("hr-info-zone")]
            out.append(("step" if e.has("step") else "mathblock", e.id, z[0] if z else None))
    return out


def run(case):
    v = Views(make(case))
    vs = v.compare(shown, "number", "a number shown is not the one of the item's place")
    want = [(n.kind.replace("mb", "mathblock"), n.label, (f"⟨{n.full}⟩" if n.kind == "step" else f"({n.full})" if n.full else ""))
            for n in v.ref.walk() if n.kind in ("step", "mb")]
    got = margins(v.raw[True])
    if got != want:
        bad = next(((a, b) for a, b in zip(want, got) if a != b), (want[len(got):], got[len(want):]))
        vs.append(Violation("margin", "a step or equation number in the margin is wrong", f"{v.src}\nexpected {bad[0]}\nactual   {bad[1]}"))
    # numbers model: consecutive in scope is by construction of the reference
    return Result(vs, (tuple(shown(v.want_dom)), tuple(want)), execs=2, steps=len(shown(v.want_dom)) + len(want),
                  trivial=not want and not shown(v.want_dom))
