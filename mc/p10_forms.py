"""P10: a shorthand and its long tag mean the same, whatever the choice at every other place."""
from functools import lru_cache
from itertools import combinations, product

from core import Result, Violation
from docmodel import Choices, H, P, T, doc, emit
from families import (BLOCKS, CODE, CON, DRAFT, FIG, LIST, M, MB, NOTE, PREV, PROOF, REF, S, STEP, TABLE, THM, build, relabel, sequences)
from project import firstdiff
from views import neutral, page, whole

PROPERTY = "P10"
RULE = ("documents are all sequences of block templates and, in every container, all sequences of inline and display parts that "
        "have two notations; for each, every combination of notations of its places (up to 2^8; beyond that all that differ "
        "from all-short, all-long or alternating in at most two places) is written and rendered in both views and compared with the "
        "page of the all-short form; trivial: documents without a place that has two notations")
ASSUMPTIONS = ["notations are as in mc/docmodel.py; text parts are fixed words"]

PARTS = {
    "t": T("w@"), "s": S("s@"), "e": S("e@", "emphas"), "E": ("span", ("emphas",), (T("a "), S("b@")), ()),
    "Z": ("span", ("strong",), (T("a "), S("b@", "emphas"), T(" c")), ()),
    "m": M("x_@"), "M": M("y_@", ("label", "lm@")), "c": CODE("c@"), "C": CODE("x = @", ("lang", "python")),
    "k": CON("claim", "k@"), "K": CON("claim", M("x_@"), T(" k")), "n": NOTE(T("n@ "), M("z_@")), "d": DRAFT(T("d "), S("d@")),
    "B": MB("b_@"), "L": MB("l_@", ("label", "el@"), ("nonum", True)), "D": MB("q_@", ("isclaim", True)),
    "S": ("span", ("strong",), (T("v@"),), (("label", "sl@"),)),
    "R": ("span", ("strong", "emphas"), (T("u@"),), ()),
}
DISPLAY = "BLD"


def parts(seq, sep=" "):
    out = [T("w ")]
    for i, c in enumerate(seq):
        if i and c not in DISPLAY and seq[i - 1] not in DISPLAY:
            out.append(T(sep))
        out.append(relabel(PARTS[c], i))
    return tuple(out)


BOX = {
    "p": lambda x: P(*x),
    "item": lambda x: LIST("enumerate", x, (T("z"),)),
    "td": lambda x: TABLE(((x, x[:1]),), ((x[:1], x), (x, x)), None),
    "td1": lambda x: TABLE(None, ((x,), (x[:1],)), x),
    "cap": lambda x: FIG(x),
    "thm": lambda x: THM("theorem", P(*x), P("z")),
    "step": lambda x: PROOF(STEP(P(*x), sub=("p", (P(*x),))), STEP(P("z"))),
    "sketch": lambda x: ("sketch", (P(*x),), ()),
    "abs": lambda x: ("abstract", (P(*x),), ()),
    "span": lambda x: P(("span", (), (*x,), (("label", "q"),)), T(" z")),
    "con": lambda x: P(CON("let", *x), T(" z")),
    "note": lambda x: P("a ", NOTE(*x), T(" z")),
    "ppar": lambda x: P(*x, meta=(("label", "pp"),)),
}
LINE = "seEZmMcCkKSRn"
EXTRA = {
    "prevs": doc(PROOF(STEP(P("a")), STEP(P("b")), STEP(P("c ", PREV(1), T(" "), PREV(2))), STEP(P("d ", PREV(3), T(" "), PREV(1, "previous"))))),
    "title": doc(P("x"), meta=(("title", "Tt"),)),
    "title2": doc(P("x"), H(2, "S"), P("y"), meta=(("label", "q"), ("title", "Tt uu"), ("date", "2020"))),
    "title3": doc(H(2, "S", label="a"), P("y"), H(3, "SS", nonum=True), H(4, "SSS"), H(2, "Z"), meta=(("title", "Tt uu"),)),
    "tabs": doc(TABLE((((T("a"),), (T("b"),), (T("c"),)),), (((T("d"),),) * 3, ((M("x"),), (S("q"),), (T("e f"),))), (T("cap "), S("z")))),
    "toc": doc(P("w"), ("toc",), P("z"), H(2, "A", label="a"), H(3, "B"), H(2, "C", nonum=True), P("x ", REF("a"))),
    "codes": doc(("codeblock", "a *b* /c/", ()), ("codeblock", "a : b # c $d$ %e", (("lang", "python"),)), ("codeblock", "x", (("label", "q"), ("lang", "c")))),
    "mbs": doc(("mb", "a", ()), ("mb", "b", (("label", "l"),)), P("x ", ("mb", "c", (("types", ("p", "q")), ("label", "m")))), ("mb", "d", (("nonum", True),))),
}


def bitsets(n, cap):
    if n <= cap:
        yield from product((True, False), repeat=n)
        return
    seen = set()
    for base in ([True] * n, [False] * n, [i % 2 == 0 for i in range(n)], [i % 2 == 1 for i in range(n)]):
        for k in (0, 1, 2):
            for flip in combinations(range(n), k):
                b = tuple(x != (i in flip) for i, x in enumerate(base))
                if b not in seen:
                    seen.add(b)
                    yield b


def sources(tier):
    quick = tier == "quick"
    for seq in sequences(BLOCKS, 2):
        yield ("seq", seq)
    for box in BOX:
        if quick and box == "td":
            continue
        alpha = LINE + (DISPLAY if box in ("p", "thm", "step") else "")
        for k in range(1, 2 if quick and box == "td1" else 3 if quick else 4):
            for s in product(alpha, repeat=k):
                if k == 3 and box not in ("p", "item"):
                    continue
                yield ("box", box, "".join(s), " ")
    for s in product(LINE, repeat=2):
        yield ("box", "p", "".join(s), ", ")
    for k in EXTRA:
        yield ("extra", k)


def legal(case):
    """The notes and constructs of the grammar do not contain everything."""
    if case[0] != "box":
        return True
    _, box, s, _ = case
    if box == "note" and "n" in s:
        return False
    return True


def base(case):
    if case[0] == "seq":
        return build(case[1], meta=(("title", "Ti"),))
    if case[0] == "extra":
        return EXTRA[case[1]]
    return doc(BOX[case[1]](parts(case[2], case[3])))


def cases(tier):
    for c in sources(tier):
        if not legal(c):
            continue
        lay = Choices(())
        emit(base(c), lay)
        cap = (8 if c[0] != "box" else 6 if c[1] != "td" else 5) if tier != "quick" else 4 if c[0] == "seq" or c[1] == "td1" else 5
        if c[0] == "seq" and tier == "quick" and len(c[1]) == 2:
            # one place of each block, all short and all long
            n = lay.places
            bits = {(True,) * n, (False,) * n, *(tuple(j != i for j in range(n)) for i in range(n))}
            for b in sorted(bits):
                yield (c, b)
            continue
        for b in bitsets(lay.places, cap):
            yield (c, b)


def describe(case):
    return emit(base(case[0]), Choices(case[1]))


@lru_cache(maxsize=32)
def allshort(c):
    src = emit(base(c))
    return src, [whole(neutral(page(src, h)[0])) for h in (False, True)]


def run(case):
    d = base(case[0])
    src = emit(d, Choices(case[1]))
    short, want = allshort(case[0])
    vs = []
    for h, w in zip((False, True), want):
        have = whole(neutral(page(src, h)[0]))
        if have != w:
            vs.append(Violation("notation", f"the page depends on the notation ({'handrails' if h else 'plain'} page)",
                                src + "\ninstead of\n" + short + "\n" + firstdiff(w, have)))
    return Result(vs, want[0], execs=2, steps=len(case[1]), trivial=src == short)
