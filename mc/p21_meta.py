"""P21: metadata takes effect on exactly its element and leaves no trace in the text."""
from itertools import combinations, permutations, product

import positions
import rsmio
from core import Result, Violation
from docmodel import Choices, H, Layout, P, T, doc, emit
from families import BIB, REF
from htmltree import parse
from views import Views, whole

PROPERTY = "P21"
RULE = ("for every kind of element, every subset (up to the bound) of the keys it knows, in every order, in block or inline form, "
        "short and long, alone, between two bare elements of the kind and between two with other metadata; every assignment of "
        "subsets to two neighbours of any two kinds; the page, and the icons of the handrails page, compared with the reference "
        "renderer's; trivial: no metadata")
ASSUMPTIONS = ["values are fixed per key; lists have one to three entries"]

W = P("w")
VALUES = {
    "label": "lb@", "types": ("ya@", "yb"), "nonum": True, "reftext": "Rt x", "title": "Tt uu@", "icon": "star", "goal": "gg",
    "path": "a/b@.png", "scale": "0.5", "lang": "python", "name": "Nn mm@", "affiliation": "Af, Ff@", "email": "e@x.y",
    "keywords": ("k two@", "a one", "m", "a one"), "msc": ("m3@", "m1", "m2"), "isclaim": True, "date": "2020-01-02", "strong": True, "emphas": True,
}
VALUES2 = dict(VALUES, types="only@", keywords="alone@", msc="n1@", scale="2", lang="c", reftext="Qq", title="V", path="q.png",
               icon="check", name="Solo@", affiliation="B@", label="other@")
COMMON = ("label", "types", "reftext")
ATTRS = ("strong", "emphas")
# kind -> (keys, function of meta -> blocks)
KINDS = {
    "p": (COMMON + ("title", "icon", "nonum"), lambda m: (P("t", meta=m),)),
    "h2": (COMMON + ("nonum",), lambda m: (("head", 2, "Hh", m), P("t"))),
    "h3": (COMMON + ("nonum",), lambda m: (H(2, "Up"), ("head", 3, "Hh", m), P("t"))),
    "h4": (COMMON + ("nonum",), lambda m: (H(2, "Up"), H(3, "Upp"), ("head", 4, "Hh", m), P("t"))),
    "thm": (COMMON + ("title", "icon", "nonum", "goal"), lambda m: (("thm", "theorem", (P("t"),), m),)),
    "def": (COMMON + ("title", "icon", "nonum"), lambda m: (("thm", "definition", (P("t"),), m),)),
    "rem": (COMMON + ("title", "icon", "nonum"), lambda m: (("thm", "remark", (P("t"),), m),)),
    "proof": (("label", "types", "icon"), lambda m: (("proof", (("step", (P("t"),), None, ()),), m),)),
    "sketch": (("label", "types", "icon"), lambda m: (("sketch", (P("t"),), m),)),
    "step": (COMMON + ("icon",), lambda m: (("proof", (("step", (P("t"),), None, m), ("step", (P("u"),), ("p", (P("v"),)), ())), ()),)),
    "substep": (COMMON + ("icon",), lambda m: (("proof", (("step", (P("s"),), (("step", (P("t"),), None, m), ("step", (P("u"),), None, ())), ()),), ()),)),
    "list": (("label", "types"), lambda m: (("list", "enumerate", (((T("t"),), ()),), m),)),
    "ulist": (("label", "types"), lambda m: (("list", "itemize", (((T("t"),), ()),), m),)),
    "item": (("label", "types"), lambda m: (("list", "itemize", (((T("t"),), m), ((T("u"),), ())), ()),)),
    "fig": (COMMON + ("nonum", "scale"), lambda m: (("fig", (T("c"),), (("path", "z.png"),) + m),)),
    "figp": (("label", "path", "scale", "nonum"), lambda m: (("fig", None, m),) if any(k == "path" for k, _ in m) else ()),
    "subproof": (COMMON + ("icon",), lambda m: (("proof", (("step", (P("s"),), ("p", (P("t"),), m), ()), ("step", (P("u"),), None, ())), ()),)),
    "figcap": (COMMON, lambda m: (("fig", ("cap", (T("c"),), m), (("path", "z.png"),)),)),
    "tabcap": (COMMON, lambda m: (("table", None, (((T("t"),),),), ("cap", (T("c"),), m), ()),)),
    "table": (COMMON + ("nonum",), lambda m: (("table", None, (((T("t"),),),), (T("c"),), m),)),
    "codeblock": (("label", "types", "lang"), lambda m: (("codeblock", "x = 1", m),)),
    "alg": (("label", "types"), lambda m: (("alg", "zz", m),)),
    "mb": (COMMON + ("nonum", "isclaim"), lambda m: (P("t", ("mb", "x", m), T("u")),)),
    "mbd": (COMMON + ("nonum",), lambda m: (W, ("mb", "x", m))),
    "span": (("label", "types") + ATTRS, lambda m: (P("a ", ("span", tuple(k for k, _ in m if k in ATTRS), (T("t"),), tuple(x for x in m if x[0] not in ATTRS)), T(" b")),)),
    "con": (("label", "types"), lambda m: (P("a ", ("con", "let", (T("t"),), m), T(" b")),)),
    "math": (("label", "types"), lambda m: (P("a ", ("math", "x", m), T(" b ")),)),
    "code": (("label", "types", "lang"), lambda m: (P("a ", ("code", "x = 1", m), T(" b ")),)),
    "note": (("label",), lambda m: (P("a ", ("note", (T("t"),), m), T(" b")),)),
    "draft": (("label", "types"), lambda m: (P("a ", ("draft", (T("t"),), m), T(" b")),)),
    "author": (("name", "affiliation", "email", "label", "types"), lambda m: (("author", m),)),
    "abstract": (("keywords", "msc", "label", "types"), lambda m: (("abstract", (P("t"),), m),)),
}
ONE = {"abstract"}
ROOT = ("title", "label", "types", "date", "reftext")


def metas(keys, most, orders):
    for k in range(0, most + 1):
        for sub in combinations(keys, k):
            if k <= orders:
                yield from permutations(sub)
            else:
                yield from dict.fromkeys((sub, sub[::-1], sub[1:] + sub[:1]))


def values(keys, i, table=VALUES):
    def sub(v):
        if isinstance(v, tuple):
            return tuple(sub(x) for x in v)
        return v.replace("@", str(i)) if isinstance(v, str) else v
    # one address per element; its @ is not the index
    return tuple((k, f"e{i}@x.y" if k == "email" else sub(table[k])) for k in keys)


LAYS = ("s", "l", "i")


def cases(tier):
    quick = tier == "quick"
    for k, (keys, _) in KINDS.items():
        for ks in metas(keys, 3 if quick else 5, 2 if quick else 4):
            for lay in LAYS:
                for around in (0, 1, 2):
                    if around and (len(ks) > (2 if quick else 4) or k in ONE):
                        continue
                    for t in (1, 2) if not around else (1,):
                        yield ("one", k, ks, lay, around, t)
    for ks in metas(ROOT, 3 if quick else 5, 3 if quick else 5):
        for t in (1, 2):
            yield ("root", ks, t)
    for a, b in product(KINDS, repeat=2):
        if a in ONE and b in ONE:
            continue
        for ka, kb in product(*(((), KINDS[x][0][:4]) if quick else metas(KINDS[x][0], 1, 0) for x in (a, b))):
            yield ("two", a, ka, b, kb)


    for place, w in valued():
        yield ("value", place, w)
    # flags of running text, two of which have no markup: given through the node classes
    for n in range(len(FLAGS) + 1):
        for on in combinations(FLAGS, n):
            for inner in ((), *((f,) for f in FLAGS)):
                yield ("flags", on, inner)


# what a value may be: anything that its notation can hold
ODD = ("q  r", "q\tr", "q   r  s", "1", "-", ".", "\u00e9", "'", "(", "[x]", "@", "=", "+", "!", "?", "|", "_q_", "^", "~", ";", "<b>", "&amp;", '"', "q,r",
       "None", "True", "0", "Q", "q" * 80, "\\", "\\#", "\\$", "\\%", "\\*", "\\`", "q\\#r", "\\q", "\\\\", "\u4e2d", "\u00a0", "{n}", "%s", "$x$", "#", "*q*")
MARKUP = set("#*$`%{}")


def valued():
    """Every place for a value with every odd value that it can hold."""
    for place in (*positions.META, *positions.ARGS, *positions.BIBF):
        braces = place in ("ptitle", "keywords", "types", "spanlabel", "notelabel")
        for w in ODD:
            bare = w.replace("\\#", "").replace("\\$", "").replace("\\%", "").replace("\\*", "").replace("\\`", "")
            if braces and set(w) & set(",{}:\u00a0"):
                continue
            if not braces and place not in positions.BIBF and place not in ("url", "refbad", "citebad", "citebad2") and set(bare) & MARKUP:
                continue
            if place in positions.BIBF and set(w) & set("{}"):
                continue
            if place in ("url", "refbad", "citebad", "citebad2", "label", "headlabel") and set(w) & set(", \t\u00a0{}"):
                continue
            if place == "lang" and w.endswith("\\"):
                continue
            yield place, w


FLAGS = {"strong": "strong", "emphas": "em", "little": "small", "insert": "ins", "delete": "del"}


def flags(on, inner):
    """The tags around the text of a span in a span."""
    import rsm
    out = []
    for translator in (rsm.translator.Translator, rsm.translator.HandrailsTranslator):
        t = rsmio.tree(":rsm:\n\nbefore :span: {:strong:} xword :span: {:emphas:} yword::::\n\n::\n", False)
        spans = list(t.traverse(nodeclass=rsm.nodes.Span))
        for node, fs in zip(spans, (on, inner)):
            for f in FLAGS:
                setattr(node, f, f in fs)
        dom = parse((translator() if translator is rsm.translator.Translator else translator(add_source=False)).translate(rsm.transformer.Transformer().transform(t)))
        for node, word, want in zip(spans, ("xword", "yword"), (on, inner + on)):
            el = next(e for e in dom.walk() if any(isinstance(c, str) and word in c.split() for c in e.kids))
            tags = []
            while el.tag not in ("p", "div"):
                tags.append(el.tag)
                el = el.parent
            wanted = sorted([FLAGS[f] for f in want] + ["span"] * (1 + (word == "yword")))
            if sorted(tags) != wanted:
                out.append(Violation("flags", f"{word} is in {tags}, not in {wanted} ({translator.__name__})", repr((on, inner))))
    return Result(out, (on, inner), execs=2, steps=len(on), trivial=not on)


def make(case):
    if case[0] == "value":
        return positions.ALL[case[1]](case[2])
    if case[0] == "root":
        m = values(case[1], 0, VALUES if case[2] == 1 else VALUES2)
        see = (P("see ", REF("lb0" if case[2] == 1 else "other0")),) if "label" in case[1] and "reftext" in case[1] else ()
        return doc(W, H(2, "S"), *see, meta=m)
    if case[0] == "two":
        _, a, ka, b, kb = case
        ma, mb = values(ka, 0), values(kb, 1, VALUES2)
        return doc(W, *KINDS[a][1](ma), *KINDS[b][1](mb), *refs(ma, a), *refs(mb, b))
    _, k, ks, _, around, t = case
    m = values(ks, 0, VALUES if t == 1 else VALUES2)
    f = KINDS[k][1]
    pre = f(()) if around == 1 else f(values(KINDS[k][0], 1)) if around == 2 else ()
    post = f(()) if around == 1 else f(values(KINDS[k][0], 2)) if around == 2 else ()
    return doc(W, *pre, *f(m), *post, *refs(m, k))


def refs(m, k):
    """A reference shows the reference text; unnumbered things need one of their own."""
    d = dict(m)
    if "label" not in d or k in ("note", "author", "abstract") or "nonum" in d:
        return ()
    return (P("see ", REF(d["label"]), T(" end")),)


def layout(case):
    if case[0] == "one":
        return {"s": Layout(), "l": Layout(short=False), "i": Layout(indent=1, tab=True, comments=True)}[case[3]]
    return Layout()


def describe(case):
    if case[0] == "flags":
        return repr(case)
    return emit(make(case), layout(case))


SHOWN = {"subproof": "subproof", "p": "paragraph", "thm": "theorem", "proof": "proof", "sketch": "sketch"}  # a step shows its number there


def icons_wanted(ref):
    out = []
    for n in ref.walk():
        i = dict(n.meta).get("icon") if n.kind in SHOWN else None
        if i:
            out.append((SHOWN[n.kind], i))
    return sorted(out)


def icons_shown(page):
    out = []
    for e in page.walk():
        if e.has("hr-info-zone"):
            icons = [c for x in e.walk() if x.has("icon") for c in x.classes if c != "icon"]
            icons = [i for i in icons if i != "ext"]
            if icons:
                hr = e.parent
                kinds = [c for c in hr.classes if c in SHOWN.values()]
                out += [(kinds[-1] if kinds else "?", i) for i in icons]
    return sorted(out)


def run(case):
    if case[0] == "flags":
        return flags(*case[1:])
    v = Views(make(case), layout(case))
    vs = v.compare(whole, "metadata", "metadata is not applied as given")
    want, have = icons_wanted(v.ref), icons_shown(v.raw[True])
    if want != have:
        vs.append(Violation("icon", f"icons {want} asked for, {have} shown (handrails page)", v.src))
    return Result(vs, (whole(v.want_dom), tuple(want)), execs=2, steps=len(case[1 if case[0] == "root" else 2]), trivial=not case[2])
