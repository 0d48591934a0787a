"""P23: references show what they refer to, algorithms are rendered and the minimap follows the reader."""
import json

import rsm
import webpage
from core import Result, Violation
from docmodel import H, P, T, doc, emit
from families import BIB, BLOCKS, CITE, PROOF, REF, STEP, relabel
from p05_refs import BLOCKISH, BOXES, TARGETS
from p07_toc import HEADS, trees

PROPERTY = "P23"
RULE = ("pages of the real renderer in both views, loaded by the real scripts of rsm/static in a stand-in for the browser: every kind of labelled thing under every label of "
        "a list of plain and special ones, referred to from before and after, with and without own text, from every container; all ordered pairs of kinds; blocks with every kind of block within; citations; up to four "
        "algorithms between other blocks; all section trees up to the bound with a table of contents. On each the tooltip of every reference is compared with "
        "the thing it refers to, every algorithm must be handed to the renderer once, and after every two events, pointing at or focusing each entry of the contents, and every two scroll "
        "positions, each section at the middle of the window with the contents in view or not, the highlighted marks of the minimap must be those up to that section; trivial: a page without any of these")
ASSUMPTIONS = ["the stand-in implements the part of the DOM, jQuery and tooltipster that the scripts use; layout is that of a column of elements in the order of the page",
               "a section is in view when its top is above the middle of the window",
               "a tooltip shows all of a block, the statement of a step, the definition of a term, the paragraph of something inline, and at least the heading of a section"]
LIMIT = webpage.LIMIT

LABELS = ("lb", "a.b", "a..b", "a b", "a+b", "a'b", "a(b)", "a[b]", "a=b", "a\\b", 'a"b', "a|b", "a@b", "a!b", "a;b", "a<b", "a>b", "a^b", "a~b", "a&b", "a*b",
          "1a", "1", "\u00e9", "-", "-1", "--x", "a_b", "A.B", "sec-one.two", "x" * 40)
QUICK = ("lb", "a.b", "a b", "a+b", "a'b", "a(b)", "a[b]", "a\\b", 'a"b', "a|b", "a>b", "1a", "-1", "\u00e9")


INNER = tuple(b for b in BLOCKS if b[0] != "h" and not b.startswith("author") and b not in ("bib", "abs", "toc", "app", "cite", "xref"))
WITHIN = {
    "thm": lambda bs: (("thm", "theorem", bs, (("label", "lb"),)),),
    "prop": lambda bs: (("thm", "proposition", bs, (("label", "lb"), ("title", "Nn"))),),
    "rem": lambda bs: (("thm", "remark", bs, (("label", "lb"), ("nonum", True))),),
    "sketch": lambda bs: (("sketch", bs, (("label", "lb"),)),),
    "abstract": lambda bs: (("abstract", bs, (("label", "lb"),)),),
    "proof": lambda bs: (PROOF(STEP(P("w"), *bs), label="lb"),),
    "step": lambda bs: (PROOF(STEP(P("w"), *bs, label="lb")),),
    "sub": lambda bs: (PROOF(STEP(P("w"), sub=(STEP(P("v"), *bs, label="lb"), STEP(P("u"))))),),
    "h2": lambda bs: (("head", 2, "Tt", (("label", "lb"),)), *bs),
    "h3": lambda bs: (("head", 2, "Up", ()), ("head", 3, "Tt", (("label", "lb"),)), *bs),
}


def go(l):
    return P("go ", REF(l), T(" and "), REF(l, "own"))


def cases(tier):
    quick = tier == "quick"
    for h in (True, False):
        for k in TARGETS:
            yield ("label", k, QUICK if quick else LABELS, h)
            yield ("box", k, tuple(BOXES), h)
            yield ("typed", k, (("ta",), ("ta", "tb"), ("x1", "my-type")), h)
        for a in BLOCKISH:
            yield ("two", a, BLOCKISH if not quick else ("theorem", "h2", "step", "fig", "alg", "mb", "span", "note"), h)
        yield ("cite", "", tuple(range(6)), h)
        for b in BLOCKS:
            yield ("alg", b, tuple(range(5)), h)
        for c in WITHIN:
            for b in INNER:
                yield ("within", c, ((b,),) + tuple((b, x) for x in (("p", "mb", "enum") if quick else INNER)), h)
        for n in range(1, 4 if quick else 6):
            names = ("2", "2n", "3", "4", "A", "2u") if n < 4 else ("2", "2n", "3", "4") if n < 5 else ("2", "3", "4")
            ts = list(trees(names, n))
            for i in range(0, len(ts), 20):
                yield ("secs", "", tuple(ts[i:i + 20]), h)
        for lab in LABELS:
            yield ("seclabel", lab, (2, 3), h)


def typed(t, types):
    """The element labelled lb has types as well."""
    if isinstance(t, tuple):
        if ("label", "lb") in t and not any(y[0] == "types" for y in t):
            return (*t, ("types", types))
        return tuple(typed(y, types) for y in t)
    return t


def make(kind, arg, x):
    if kind == "typed":
        return doc(go("lb"), *typed(TARGETS[arg]("lb", "Rr" if arg == "thmn" else "", ()), x), go("lb"))
    if kind == "label":
        return doc(go(x), *TARGETS[arg](x, "Rr" if arg == "thmn" else "", ()), go(x))
    if kind == "box":
        return doc(BOXES[x]((REF("lb"),)), *TARGETS[arg]("lb", "Rr", ()), BOXES[x]((T("x "), REF("lb", "own"))))
    if kind == "within":
        bs = tuple(relabel(BLOCKS[b], i) for i, b in enumerate(x))
        return doc(go("lb"), *WITHIN[arg](bs), go("lb"))
    if kind == "two":
        if "abstract" in (arg, x) and arg == x:
            return doc(P("x"))
        A, B = TARGETS[arg]("l.a", "", ()), TARGETS[x]("lb", "", ())
        if ("appendix",) in A:
            B = tuple(b for b in B if b != ("appendix",))
        if arg in ("h2", "h3", "h4", "apx", "apx3") and x == "mbd":
            B = (P("w"),) + B
        return doc(go("l.a"), *A, *B, go("lb"))
    if kind == "cite":
        return doc(P("a ", *[CITE("k1"), T(" b "), CITE("k2"), T(" c "), CITE("k1", "k2")][:x]), ("bib",), bib=BIB)
    if kind == "alg":
        out = [P("w")]
        for i in range(x):
            out += [("alg", "z", (("label", f"al{i}"),)), relabel(BLOCKS[arg], i)] if arg not in ("bib", "abs", "h2", "h2u", "h3", "h4", "apx", "toc") else [("alg", "z", ())]
        return doc(*out, bib=BIB if "bib" in repr(out) or "cite" in repr(out) else ())
    if kind == "secs":
        out = [P("intro"), ("toc",)]
        for i, s in enumerate(x):
            out += [relabel(HEADS[s], i)]
            if s != "A":
                out += [P(f"w{i}")]
        return doc(*out, meta=(("title", "T"),))
    if kind == "seclabel":
        out = [P("intro"), ("toc",)]
        for i in range(x):
            out += [("head", 2, f"S{i}", (("label", arg if i == 1 else f"s{i}"),)), P(f"w{i}")]
        return doc(*out, meta=(("title", "T"),))
    raise ValueError(kind)


def describe(case):
    kind, arg, xs, h = case
    return f"{'handrails' if h else 'plain'} pages of:\n" + "\n% ----\n".join(emit(make(kind, arg, x)) for x in xs)


def run(case):
    kind, arg, xs, h = case
    sources = [emit(make(kind, arg, x)) for x in xs]
    config = {"mode": "aids", "depth": 2 if kind in ("secs", "seclabel") else 1}
    found = webpage.node([{"html": rsm.render(source=s, handrails=h, loglevel=50), "config": config} for s in sources])
    vs, seen = [], set()
    for s, x, res in zip(sources, xs, found):
        for b in res["bad"]:
            if b["key"] not in seen:
                seen.add(b["key"])
                vs.append(Violation(b["key"], b["what"], f"{x!r} in the {'handrails' if h else 'plain'} view; {b['n']} times\n{s}"))
    n = sum(r["transitions"] for r in found)
    return Result(vs, json.dumps([r["transitions"] for r in found]), execs=len(found), steps=n, trivial=not n)
