"""P05: every reference links to the labelled thing and names it correctly."""
from itertools import product

from core import Result, Violation
from docmodel import H, P, T, THM_KINDS, doc, emit
from families import BIB, CODE, CON, DRAFT, FIG, LIST, M, MB, NOTE, PREV, PROOF, REF, S, STEP, TABLE, THM, row
from views import Views

PROPERTY = "P05"
RULE = ("for every kind of labellable thing: a reference before, after and inside it, with and without own text, with "
        "every custom reference text of a list, in every inline container; every ordered pair of kinds with the same "
        "label or with two labels and references to both; references to labels that do not exist, prefixes and "
        "extensions of existing ones, and the manuscript's own; trivial: never")
ASSUMPTIONS = ["references to unnumbered items without custom text are left out (the existing tests fix their text as 'None')"]


def lab(l, rt, *more):
    m = (("label", l),) if l else ()
    return m + ((("reftext", rt),) if rt else ()) + tuple(more)


W = P("w")
# kind -> function of (label, reftext, inlines put inside) -> blocks
def _thm(k):
    return lambda l, rt, x: (("thm", k, (P("t ", *x),), lab(l, rt)),)


TARGETS = {
    **{k: _thm(k) for k in THM_KINDS},
    "thmn": lambda l, rt, x: (("thm", "theorem", (P("t ", *x),), lab(l, rt, ("nonum", True))),),
    "p": lambda l, rt, x: (P("t ", *x, meta=lab(l, rt)),),
    "h2": lambda l, rt, x: (("head", 2, "Tt", lab(l, rt)), P("t ", *x)),
    "h3": lambda l, rt, x: (H(2, "Up"), ("head", 3, "Tt", lab(l, rt)), P("t ", *x)),
    "h4": lambda l, rt, x: (H(2, "Up"), H(3, "Upp"), ("head", 4, "Tt", lab(l, rt)), P("t ", *x)),
    "apx": lambda l, rt, x: (("appendix",), ("head", 2, "Tt", lab(l, rt)), P("t ", *x)),
    "apx3": lambda l, rt, x: (("appendix",), H(2, "Up"), ("head", 3, "Tt", lab(l, rt)), P("t ", *x)),
    "proof": lambda l, rt, x: (PROOF(STEP(P("t ", *x)), **dict(lab(l, rt))),),
    "sketch": lambda l, rt, x: (("sketch", (P("t ", *x),), lab(l, rt)),),
    "abstract": lambda l, rt, x: (("abstract", (P("t ", *x),), lab(l, rt)),),
    "author": lambda l, rt, x: (("author", lab(l, rt, ("name", "Nn"))),),
    "step": lambda l, rt, x: (PROOF(STEP(W), STEP(P("t ", *x), **dict(lab(l, rt)))),),
    "substep": lambda l, rt, x: (PROOF(STEP(W), STEP(W, sub=(STEP(W), STEP(P("t ", *x), **dict(lab(l, rt)))))),),
    "list": lambda l, rt, x: (("list", "enumerate", (((T("t "), *x), ()),), lab(l, rt)),),
    "ulist": lambda l, rt, x: (("list", "itemize", (((T("t "), *x), ()),), lab(l, rt)),),
    "item": lambda l, rt, x: (("list", "itemize", (((T("u"),), ()), ((T("t "), *x), lab(l, rt))), ()),),
    "fig": lambda l, rt, x: (("fig", (T("t "), *x), (("path", "a.png"), *lab(l, rt))),),
    "table": lambda l, rt, x: (("table", None, (row("c"),), (T("t "), *x), lab(l, rt)),),
    "codeblock": lambda l, rt, x: (("codeblock", "x = 1", lab(l, rt)),),
    "alg": lambda l, rt, x: (("alg", "z", lab(l, rt)),),
    "mb": lambda l, rt, x: (P("t ", *x, ("mb", "m", lab(l, rt))),),
    "mbd": lambda l, rt, x: (("mb", "m", lab(l, rt)),),
    "claim": lambda l, rt, x: (P("t ", *x, ("mb", "m", lab(l, rt, ("isclaim", True)))),),
    "span": lambda l, rt, x: (P("a ", ("span", ("strong",), (T("t "), *x), lab(l, rt)), T(" b")),),
    "con": lambda l, rt, x: (P("a ", ("con", "let", (T("t "), *x), lab(l, rt)), T(" b")),),
    "math": lambda l, rt, x: (P("a ", ("math", "m", lab(l, rt)), T(" b ")),),
    "icode": lambda l, rt, x: (P("a ", ("code", "m", lab(l, rt)), T(" b ")),),
    "subproof": lambda l, rt, x: (PROOF(STEP(W, sub=("p", (P("t ", *x),), lab(l, rt)))),),
    "figcap": lambda l, rt, x: (("fig", ("cap", (T("t "), *x), lab(l, rt)), (("path", "a.png"),)),),
    "tabcap": lambda l, rt, x: (("table", None, (row("c"),), ("cap", (T("t "), *x), lab(l, rt)), ()),),
    "note": lambda l, rt, x: (P("a ", ("note", (T("t "), *x), lab(l, rt)), T(" b")),),
    "draft": lambda l, rt, x: (P("a ", ("draft", (T("t "), *x), lab(l, rt)), T(" b")),),
}
BLOCKISH = ("theorem", "lemma", "p", "h2", "h3", "h4", "apx", "apx3", "proof", "sketch", "step", "substep", "list", "item", "fig", "table",
            "codeblock", "alg", "mb", "mbd", "claim", "span", "con", "math", "icode", "draft", "abstract", "author", "note", "subproof", "figcap", "tabcap")
REFTEXTS = ("", "Xx", "Xx Yy zz", "9", "(3)", "A. b.", "Number", "Theorem 7")
BOXES = {
    "p": lambda x: P("see ", *x, T(" end")),
    "p0": lambda x: P(*x),
    "span": lambda x: P(("span", ("strong",), (T("b "), *x), ())),
    "con": lambda x: P(CON("let", T("b "), *x)),
    "note": lambda x: P("a ", NOTE(T("b "), *x), T(" c")),
    "draft": lambda x: P("a ", DRAFT(T("b "), *x), T(" c")),
    "item": lambda x: LIST("enumerate", (T("b "), *x)),
    "td": lambda x: TABLE(None, (((T("b "), *x),),)),
    "cap": lambda x: FIG((T("b "), *x)),
    "thm": lambda x: THM("theorem", P("b ", *x)),
    "step": lambda x: PROOF(STEP(P("b ", *x))),
    "claim": lambda x: P("a ", MB("q"), T("b "), *x),
}


def cases(tier):
    quick = tier == "quick"
    for k in TARGETS:
        for rt in REFTEXTS:
            if k == "thmn" and not rt:
                continue
            for where in ("before", "after", "inside", "both"):
                for txt in ("", "own", "own words"):
                    if rt and txt and quick and where != "before":
                        continue
                    yield ("one", k, rt, where, txt)
    for k in TARGETS:
        if k != "thmn":
            for box in BOXES:
                for txt in ("", "own"):
                    yield ("box", k, box, txt)
    for a in BLOCKISH:
        for b in BLOCKISH:
            if "abstract" in (a, b) and a == b:
                continue
            yield ("two", a, b, "same")
            yield ("two", a, b, "diff")
            if not quick:
                yield ("two", a, b, "cross")
                yield ("two", a, b, "samert")
    if not quick:
        few = ("theorem", "p", "h2", "step", "item", "fig", "mb", "span", "claim", "alg", "table", "note")
        for t in product(few, repeat=3):
            for same in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 1, 2)):
                yield ("three", t, same)
    # labels that resemble one another, and those that do not exist
    names = ("a", "ab", "a-b", "a_b", "A", "a1", "b", "cite-0", "a.b", "0")
    for have in names:
        for want in names + ("k1", "man"):
            for pos in (0, 1):
                yield ("name", have, want, pos)
    for k in BLOCKISH:
        for box in BOXES:
            yield ("unknown", k, box)
    for n in (2, 3, 13, 24) if quick else range(2, 40):
        for sub in (False, True):
            yield ("prev", n, sub)
    for k in TARGETS:
        if k not in ("thmn", "abstract", "man"):
            for n in (11, 28) if quick else range(4, 41):
                yield ("copies", k, n)


def make(case):
    kind = case[0]
    if kind == "one":
        _, k, rt, where, txt = case
        r = REF("lb", txt)
        inside = (r,) if where in ("inside", "both") else ()
        t = TARGETS[k]("lb", rt, inside)
        pre = (P("go ", r, T(" on")),) if where in ("before", "both") else ()
        post = (P("go ", r, T(" on")),) if where in ("after", "both") else ()
        return doc(*pre, *t, *post)
    if kind == "box":
        _, k, box, txt = case
        return doc(BOXES[box]((REF("lb", txt),)), *TARGETS[k]("lb", "", ()), BOXES[box]((T("x "), REF("lb", txt))))
    if kind == "two":
        _, a, b, how = case
        la, lb = ("lb", "lb") if how.startswith("same") else ("la", "lb")
        rt = ("R1", "R2") if how == "samert" else ("", "")
        inside = ((), ()) if how != "cross" else ((REF(lb),), (REF(la),))
        refs = (REF(la), T(" "), REF(lb), T(" "), REF(lb, "tx"))
        mid = ("appendix",)
        A, B = TARGETS[a](la, rt[0], inside[0]), TARGETS[b](lb, rt[1], inside[1])
        if mid in A and mid in B:
            B = tuple(x for x in B if x != mid)
        if a in ("h2", "h3", "h4", "apx", "apx3") and b in ("mbd",):
            B = (P("w"),) + B
        return doc(P("r ", *refs), *A, *B)
    if kind == "three":
        _, ks, same = case
        out = []
        refs = []
        for i, k in enumerate(ks):
            l = f"l{same[i]}"
            refs += [T("; "), REF(l), T("; "), REF(l, f"t{i}")]
            out += TARGETS[k](l, "", ())
        return doc(P("r ", *refs), *out, P("z ", *refs))
    if kind == "prev":
        _, n, sub = case
        steps = [STEP(P(f"s{i} ", *[x for k in range(1, i + 1) for x in (PREV(k, "prev" if k < 4 else "previous"), T(" "), PREV(k, "previous", "tx"), T(" "))]), label=f"l{i}") for i in range(n)]
        steps.append(STEP(P("z ", REF("l0"), T(" "), REF(f"l{n - 1}"))))
        return doc(PROOF(STEP(P("up"), sub=tuple(steps)) if sub else steps[0], *(() if sub else steps[1:])))
    if kind == "copies":
        out, refs = [], []
        for i in range(case[2]):
            refs += [T("; "), REF(f"l{i}"), T("; "), REF(f"l{i}", f"t{i}")]
            out += [x for x in TARGETS[case[1]](f"l{i}", "", ()) if x != ("appendix",) or x not in out]
        return doc(P("r ", *refs), *out, P("z ", *refs))
    if kind == "name":
        _, have, want, pos = case
        bs = (P("t", meta=(("label", have),)), P("go ", REF(want), T(" on")))
        return doc(*(bs[::-1] if pos else bs), ("bib",), meta=(("title", "T"), ("label", "man")), bib=BIB)
    _, k, box = case
    return doc(BOXES[box]((REF("nope"),)), *TARGETS[k]("lb", "", (REF("nope2", "txt"),)), BOXES[box]((REF("nope", "tx"), T(" "), REF("lb"))))


def describe(case):
    return emit(make(case))


def clean(s):
    return " ".join(s.split())


def links(dom):
    """References, errors and identified elements of the page, in order."""
    out = []
    for e in dom.walk():
        if e.has("backlink") or e.has("cite"):
            continue
        if e.tag == "a" and e.attrs.get("href", "").startswith("#"):
            out.append(("link", e.attrs["href"], " ".join(sorted(e.classes)), clean(e.text())))
        elif e.has("error"):
            out.append(("error", clean(e.text())))
        if e.id:
            what = [c for c in e.classes if c != "hr-label"]
            out.append(("at", e.tag, e.id, " ".join(sorted(what)), "".join(e.text().split())[:20]))
    return out


def dangling(page):
    ids = {e.id for e in page.walk() if e.id}
    return [e.attrs["href"] for e in page.walk()
            if e.tag == "a" and e.attrs.get("href", "").startswith("#") and len(e.attrs["href"]) > 1 and e.attrs["href"][1:] not in ids]


def run(case):
    v = Views(make(case))
    vs = v.compare(links, "reference", "a reference, or the element it should lead to, is wrong")
    for h, p in v.raw.items():
        if d := dangling(p):
            vs.append(Violation("dangling", f"links to {d} lead nowhere ({'handrails' if h else 'plain'} page)", v.src))
    return Result(vs, tuple(links(v.want_dom)), execs=2, steps=len(links(v.want_dom)))
