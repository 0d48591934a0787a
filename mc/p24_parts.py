"""P24: a page works with whatever of its scripts load, whenever they do and from wherever they are served."""
import json
from itertools import chain, combinations

import rsm
import webpage
from core import Result, Violation
from docmodel import H, P, T, doc, emit
from families import BIB, BLOCKS, CITE, PROOF, REF, STEP, THM, relabel

PROPERTY = "P24"
RULE = ("pages of the real renderer in both views, loaded by the real scripts of rsm/static in a stand-in for the browser: on each every subset of icons, handrails, "
        "keyboard, minimap, tooltips, the two scripts of the network and jQuery or tooltipster that does not load; the network scripts arriving between any two "
        "actions of the reader, or failing then, or never; every subset of algorithms that the renderer does not accept; the scripts served from other paths. What did "
        "load must work as in P18, P19 and P23, whatever is hidden must have been hidden by the reader, and late scripts must leave the page as if they had come at once; "
        "trivial: none")
ASSUMPTIONS = ["the stand-in of P18, P19 and P23; a script that does not load is one whose import, or whose script element, fails",
               "keyboard.js uses handrails.js; libraries.js and onload.js load", "while MathJax is awaited no action of the reader is judged"]
LIMIT = webpage.LIMIT

MODULES = ("icons.js", "handrails.js", "keyboard.js", "minimap.js", "tooltips.js")
NETWORK = ("mathjax", "pseudocode")
LIBS = ("jquery", "tooltipster")

RICH = (P("a ", REF("t1"), T(" b")), H(2, "One", label="s1"), THM("theorem", P("x ", REF("s1")), label="t1", title="Nn"), ("toc",),
        PROOF(STEP(P("z ", REF("t1")), sub=(STEP(P("w"), sub=("p", (P("v"),))), STEP(P("u")))), label="pf"),
        ("alg", "a1", (("label", "al1"),)), H(3, "Sub", label="s2"), P("y ", CITE("k1")), ("alg", "a2", ()), H(2, "Two", label="s3"), P("q"), ("bib",))
PAGES = {
    "rich": (RICH, {"title": "T"}),
    "bare": ((P("just text"),), {}),
    "proof": ((PROOF(STEP(P("z"), sub=(STEP(P("w"), sub=("p", (P("v"),))),)), label="pf"),), {"title": "T"}),
    "toc": ((("toc",), H(2, "One", label="s1"), P("x"), H(2, "Two", label="s2"), P("y ", REF("s1"))), {"title": "T"}),
    "alg": ((P("go ", REF("al")), ("alg", "a", (("label", "al"),)), THM("lemma", P("x"))), {}),
    "thm": ((THM("theorem", P("x"), label="t1"), P("see ", REF("t1"))), {}),
    "linkstep": ((PROOF(STEP(P("a ", REF("pf")), sub=(STEP(P("b ", REF("pf"))),)), label="pf"),), {}),
}
KEYS = ["j", "k", "h", "l", "H", ",", ";", "i"]
PATHS = ("/static/", "/", "/a/", "/a/b/static/", "http://host/x/")


def subsets(xs):
    return chain.from_iterable(combinations(xs, n) for n in range(len(xs) + 1))


def source(page):
    blocks, meta = PAGES[page] if page in PAGES else ((relabel(BLOCKS[page], 0),), {"title": "T"})
    return emit(doc(*blocks, meta=tuple(meta.items()), bib=BIB if "bib" in repr(blocks) or "cite" in repr(blocks) else ()))


def cases(tier):
    for c in all_cases(tier == "quick"):
        yield (*c, tier == "quick")


def all_cases(quick):
    others = [b for b in BLOCKS if b not in ("h4",)]
    for h in (True, False):
        for missing in subsets(MODULES):
            for lacks in ((), ("jquery",), ("tooltipster",)):
                for page in ("rich", "bare") if quick else PAGES:
                    yield ("missing", page, h, (missing, lacks))
        for page in others:
            yield ("one", page, h, ())
        for path in PATHS:
            for page in ("rich", "bare") if quick else PAGES:
                yield ("path", page, h, (path,))
        for n in range(1, 4 if quick else 6):
            yield ("algs", "", h, (n,))
    for page in PAGES:
        if page != "bare" and (page != "rich" or not quick):
            for held in (("pseudocode",), ("mathjax",), ("mathjax", "pseudocode")):
                for fail in subsets(NETWORK):
                    yield ("late", page, True, (held, fail))


def configs(kind, arg):
    """The configurations of one case: (what the page cannot have, how it is explored)."""
    if kind == "missing":
        missing, lacks = arg
        for fail in subsets(NETWORK):
            yield dict(missing=missing, lacks=lacks, fail=fail)
    elif kind == "one":
        for m in MODULES:
            yield dict(missing=[m])
        for m in NETWORK:
            yield dict(fail=[m])
        for m in LIBS:
            yield dict(lacks=[m])
        for a, b in combinations(MODULES, 2):
            yield dict(missing=[a, b], lacks=["jquery"])
    elif kind == "path":
        yield dict(path=arg[0])
    elif kind == "late":
        yield dict(held=arg[0], fail=arg[1])


def actions(c, h):
    """What works with what there is."""
    missing = c.get("missing", ())
    if not h or "handrails.js" in missing:
        return {} if h or "handrails.js" in missing else {"keyset": [] if "keyboard.js" in missing else KEYS}
    out = {"clicks": True, "menus": "whole", "items": "all"}
    if "keyboard.js" not in missing:
        out["keyset"] = KEYS
    return out


def jobs(case):
    kind, page, h, arg, quick = case
    if kind == "algs":
        for bad in subsets(range(arg[0])):
            src = emit(doc(*(("alg", f"a{i}", (("label", f"al{i}"),)) for i in range(arg[0])), P("x ", *(REF(f"al{i}") for i in range(arg[0])))))
            yield src, {"mode": "aids", "unrenderable": bad, "depth": 1}
        return
    src = source(page)
    for c in configs(kind, arg):
        if kind == "late":
            yield src, {**c, "clicks": True, "keyset": ["j", ",", ";", "i"] if quick else ["j", "k", ",", ";", "i", "."], "max": 700 if quick else 4000}
            continue
        yield src, {**c, "mode": "aids", "depth": 1}
        yield src, {**c, **actions(c, h), "depth": 1 if quick or page == "rich" else 2, "max": 60}


def describe(case):
    return f"{case}\n" + next(iter(jobs(case)))[0]


def run(case):
    js = list(jobs(case))
    pages = {}
    for s, c in js:
        if s not in pages:
            pages[s] = rsm.render(source=s, handrails=case[2], loglevel=50)
    found = webpage.node([{"html": pages[s], "config": c} for s, c in js])
    vs, seen = [], set()
    for (s, c), res in zip(js, found):
        for b in res["bad"]:
            if b["key"] not in seen:
                seen.add(b["key"])
                vs.append(Violation(b["key"], b["what"], f"with {json.dumps(c)}, after {json.dumps(b['path'])}; {b['n']} times"))
    return Result(vs, json.dumps([r["states"] for r in found]), execs=len(found), steps=sum(r["transitions"] for r in found))
