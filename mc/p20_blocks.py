"""P20: the page has exactly the blocks of the source, nested and ordered as in the source."""
from itertools import product

from core import Result
from docmodel import P, T, emit
from families import (BLOCKS, FIG, LIST, M, PROOF, S, STEP, TABLE, THM, build, copies, twins, para, paras, row, sequences)
from docmodel import doc
from views import Views, whole

PROPERTY = "P20"
RULE = ("documents are all sequences (up to the bound) over an alphabet of 38 block templates, and all "
        "nestings and sizes of lists, tables and figures within the bounds, and all paragraphs made of text, inline and display parts; each is written as RSM, "
        "rendered by the real code in both views and compared with the page an independent reference "
        "renderer gives; trivial: the empty document")
ASSUMPTIONS = ["block contents are drawn from the templates; larger documents behave as compositions of these"]

SMALL = ("p", "h2", "h3", "h4", "thm", "proof", "enum", "mb", "claim", "fig", "table", "codel", "alg",
         "app", "bib", "inl", "abs", "toc")


def shapes(tier):
    """Lists, tables and figures of every small shape, in every host."""
    n = 3 if tier == "quick" else 4
    cells = ((T("w"),), (T("a "), S("b")), (M("x"),), (T("p"), T(" q")))
    for kind in ("enumerate", "itemize"):
        for k in range(1, n + 1):
            for pat in product(range(3), repeat=k):
                items = tuple((cells[c][:1] + (T(f" z{i}"),) if c == 2 else (T(f"i{i} "),) + cells[c], (("label", f"L{i}"),) if c == 1 else ())
                              for i, c in enumerate(pat))
                yield ("list", kind, items, ())
    for hr, br in product((None, 1, 2), range(0, n + 1)):
        for cols in range(1, n + 1):
            for cap in (None, (T("cap "), S("x"))):
                for mark in range(0, 3):
                    if br == 0 and hr is None:
                        continue
                    mk = lambda t, r: tuple(tuple((T(f"{t}{i}{j}"),) if (i + j) % 3 or not mark else (T(f"{t}{i}{j} "),) + cells[mark]  # noqa: E731
                                            for j in range(cols)) for i in range(r))
                    yield ("table", mk("h", hr) if hr else None, mk("b", br) if br else None, cap, ())
    for cap in (None, (T("one"),), (T("one "), S("two"), T(" three")), (M("x"), T(" y")), (T("a"), T(" b ")),):
        for scale in (None, "0.5", "2"):
            for lab in (None, "fl"):
                for nn in (False, True):
                    meta = (("path", "x/y.png"),)
                    if scale:
                        meta += (("scale", scale),)
                    if lab:
                        meta += (("label", lab),)
                    if nn:
                        meta += (("nonum", True),)
                    yield ("fig", cap, meta)


HOSTS = ("top", "sec", "thm", "sketch", "step", "sub", "proof")


def host(where, b):
    a, z = P("before"), P("after")
    if where == "top":
        return (a, b, z)
    if where == "sec":
        return (("head", 2, "S", ()), b, ("head", 3, "SS", ()), z)
    if where == "thm":
        return (THM("theorem", a, b, z),)
    if where == "sketch":
        return (("sketch", (b, z), ()),)
    if where == "step":
        return (PROOF(STEP(a, b, z), STEP(z)),)
    if where == "sub":
        return (PROOF(STEP(a, sub=("p", (a, b, z)))),)
    return (PROOF(a, b, z),)


NESTABLE = ("p", "ptitle", "thm", "lem", "sketch", "proof", "enum", "item", "mb", "mb0", "claim", "fig",
            "table", "codel", "alg", "inl", "con", "xref")


def cases(tier):
    for seq in sequences(BLOCKS, 2 if tier == "quick" else 3):
        yield ("seq", seq)
    for seq in copies(tier):
        yield ("seq", seq)
    for seq in twins(tier):
        yield ("twins", seq)
    for seq in sequences(SMALL, 3 if tier == "quick" else 4, least=3):
        if tier == "quick" or len(seq) == 4:
            yield ("seq", seq)
    for w in HOSTS if tier != "quick" else ("top", "step"):
        for b in shapes(tier):
            yield ("host", w, b)
    for seq in paras(3 if tier == "quick" else 4):
        yield ("par", "top", seq)
    for w in HOSTS[1:]:
        for seq in paras(3, "BC", "ts"):
            yield ("par", w, seq)
    for w in HOSTS:
        for b in NESTABLE:
            yield ("nest", w, b)
            for w2 in ("thm", "sketch", "step", "sub", "proof"):
                yield ("nest2", w, w2, b)


def make(case):
    from families import relabel
    if case[0] == "twins":
        return build(case[1], alike=True)
    if case[0] == "seq":
        return build(case[1])
    if case[0] == "host":
        return doc(*host(case[1], case[2]))
    if case[0] == "par":
        return doc(*host(case[1], para(case[2])))
    if case[0] == "nest":
        return doc(*host(case[1], relabel(BLOCKS[case[2]], 0)))
    inner = host(case[2], relabel(BLOCKS[case[3]], 0))
    return doc(*[x for b in inner for x in host(case[1], b)])


def describe(case):
    return emit(make(case))


def run(case):
    v = Views(make(case))
    vs = v.compare(whole, "structure", "blocks differ from the source's")
    return Result(vs, whole(v.want_dom), execs=v.execs, steps=len(v.d[2]), trivial=not v.d[2])
