"""P02: the words of the source, once, in order, joined and parted as written."""
from itertools import product

from core import Result, Violation
from docmodel import P, T, doc, emit
from families import (BIB, CITE, CODE, CON, DRAFT, FIG, LIST, M, MB, NOTE, PROOF, REF, S, STEP, TABLE, THM, URL, build, copies, twins,
                      relabel)
from htmltree import El
from project import firstdiff
from views import Views, whole

PROPERTY = "P02"
RULE = ("all sequences (up to the bound) over an alphabet of words and inline tags, with nothing, a blank or a line "
        "break between any two, in every kind of container, and lines of every beginning and end, one to three on end, rendered in both views and compared whole with the "
        "reference renderer; trivial: one single word")
ASSUMPTIONS = ["two neighbouring span, construct or math tags are always shown one blank apart (documented by the tests)"]

ITEMS = {
    "w": T("wo@"),
    "W": T("tw@ words@"),
    "dot": T(". do@"),
    "b": S("bo@"),
    "e": S("em@", "emphas"),
    "be": ("span", ("strong", "emphas"), (T("be@"),), ()),
    "bn": ("span", ("strong",), (T("x@ "), S("in@", "emphas"), T(" y@")), ()),
    "sl": ("span", ("strong",), (T("lab@"),), (("label", "sl@"),)),
    "m": M("x_@"),
    "ml": M("y_@", ("label", "ml@")),
    "c": CODE("co@"),
    "r": REF("no@"),
    "rt": REF("tgt", "text@"),
    "u": URL("http://h@", "si@"),
    "ci": CITE("k1"),
    "cc": CITE("k1", "k2"),
    "n": NOTE("no@"),
    "d": DRAFT("dr@"),
    "con": CON("let", "co@ ", M("z_@")),
    "q": CON("qed"),
}
# ...and some that span lines.
LINED = {
    "L2": T("wa@\nwb@"),
    "L3": T("va@\nvb@\nvc@"),
    "L6": T("ua@\nub@ uc@\nud@\nue@\nuf@\nug@"),
    "bL": S("ba@\nbb@"),
    "bLL": ("span", ("strong",), (T("ba@\n"), S("bi@\nbj@", "emphas"), T("\nbb@\nbc@\nbd@")), ()),
    "nL": NOTE("na@\nnb@\nnc@\nnd@"),
    "dL": DRAFT("da@\ndb@"),
    "conL": CON("let", "ca@\n", M("z_@"), "\ncb@\ncc@\ncd@"),
}
# ...and some that begin or end with punctuation.
POINTS = {f"p{i}": T(t) for i, t in enumerate((
    ".", ".do@", "... do@", ".. do@", "..", ", co@", ",", ") pa@", ")", "! ex@", "; se@", "-hy@", "’s", "? q@", "wo@ (", "“qu@”", "(", "—"))}
ITEMS.update(LINED)
ITEMS.update(POINTS)
# What lines can begin, end or consist of.
EDGES = ("a", "wo@", "x-", "-x", "x,", "(", ")", "1", "1.", "\u00e9", "’", "“q”", "—", "...", "x=", "+", "a b", "A.", "-", "--")
PLAIN = tuple(n for n in ITEMS if n not in LINED and n not in POINTS)
TAGS = tuple(n for n in PLAIN if ITEMS[n][0] != "t")
SEPS = ("", " ", "\n")
CORE = ("w", "W", "dot", "b", "e", "m", "c", "r", "u", "n", "con")


def boxes():
    """name -> function of the inlines to blocks."""
    return {
        "p": lambda i: (P(*i), P("z")),
        "item": lambda i: (LIST("itemize", tuple(i), (T("z"),)),),
        "step": lambda i: (PROOF(STEP(P(*i), sub=("p", (P("z"),)))),),
        "thm": lambda i: (THM("theorem", P(*i), P("z")),),
        "cap": lambda i: (FIG(tuple(i)), P("z")),
        "cell": lambda i: (TABLE(None, ((tuple(i), (T("z"),)),)),),
        "note": lambda i: (P("a ", ("note", tuple(i), ()), T(" z")),),
        "span": lambda i: (P("a ", ("span", ("strong",), tuple(i), (("label", "spl"),)), T(" z")),),
        "con": lambda i: (P("a ", ("con", "let", tuple(i), ()), T(" z")),),
        "abs": lambda i: (("abstract", (P(*i), P("y")), ()), P("z")),
        "sketch": lambda i: (("sketch", (P(*i),), ()), P("z")),
    }


def ok(box, names, seps):
    text = lambda n: ITEMS[n][0] == "t"  # noqa: E731
    for i, s in enumerate(seps):
        if text(names[i]) and text(names[i + 1]) and s == "":
            return False
    return True


def cases(tier):
    quick = tier == "quick"
    names = PLAIN
    for box in boxes():
        for n in LINED:
            yield (box, (n,), ())
            for m in CORE + tuple(LINED):
                for sep in SEPS:
                    for pair in ((n, m), (m, n)) if m not in LINED else ((n, m),):
                        if ok(box, pair, (sep,)):
                            yield (box, pair, (sep,))
        for n in names:
            yield (box, (n,), ())
        for pair in product(names, repeat=2):
            for sep in SEPS:
                if ok(box, pair, (sep,)):
                    yield (box, pair, (sep,))
        for n in POINTS:
            for m in TAGS:
                yield (box, (m, n), ("",))
                yield (box, (n, m), ("",))
            for m in TAGS if not quick or box == "p" else ("m", "r", "e", "c"):
                for k in ("m", "e"):
                    yield (box, (m, n, k), ("", ""))
    for box in ("p",) if quick else ("p", "item", "step", "cap", "note"):
        for trip in product(CORE if quick else names, repeat=3):
            for seps in product(SEPS[:2] if quick else SEPS, repeat=2):
                if ok(box, trip, seps):
                    yield (box, trip, seps)
    for box in ("p", "item", "step", "note", "span", "con"):
        for n in (2, 3):
            if n == 2 or box == "p" or not quick:
                for lines in product(EDGES, repeat=n):
                    yield ("edges", (box, lines), ())
    for seq in copies(tier):
        yield ("copies", seq, ())
    for seq in twins(tier):
        yield ("twins", seq, ())
    for n in (3, 40) if quick else range(3, 80):
        for k in ("lines", "words", "tags"):
            yield ("big", (k, n), ())
    for trip in product(("w", "L2", "L6", "bL", "m", "c", "n", "conL"), repeat=3):
        for seps in product(SEPS, repeat=2):
            if ok("p", trip, seps) and (not quick or seps[0] == seps[1]):
                yield ("p", trip, seps)


def make(case):
    box, names, seps = case
    if box == "copies":
        return build(names)
    if box == "twins":
        return build(names, alike=True)
    if box == "edges":
        return doc(*boxes()[names[0]]([T("\n".join(x.replace("@", str(i)) for i, x in enumerate(names[1])))]))
    if box == "big":
        k, n = names
        inl = {"lines": ("\n".join(f"w{i}" for i in range(n)),), "words": (" ".join(f"w{i}" for i in range(n)),),
               "tags": tuple(x for i in range(n) for x in (relabel(ITEMS[CORE[i % len(CORE)]], i), T(f" v{i} ")))}[k]
        return doc(P(*inl), LIST("itemize", inl if k == "tags" else tuple(map(T, inl)), (T("z"),)))
    inl = []
    for i, n in enumerate(names):
        if i and seps[i - 1]:
            inl.append(T(seps[i - 1]))
        inl.append(relabel(ITEMS[n], i))
    # neighbouring words are one text
    out = []
    for x in inl:
        if out and out[-1][0] == "t" and x[0] == "t":
            out[-1] = T(out[-1][1] + x[1])
        else:
            out.append(x)
    return doc(P("top", meta=(("label", "tgt"),)), *boxes()[box](out), ("bib",), bib=BIB)


# The recorded findings, each as what it makes of the page that should be shown.
def code_spaced(dom):
    """Inline code always has a blank on either side."""
    def put(e, i, k):
        return [" ", k, " "] if isinstance(k, El) and k.tag == "span" and k.has("code") else [k]
    return rewrite(dom, put)


def dot_spaced(dom):
    """Math with a full stop after it has a blank before it."""
    def put(e, i, k):
        nxt = e.kids[i + 1] if i + 1 < len(e.kids) else ""
        if isinstance(k, El) and k.tag == "span" and k.has("math") and isinstance(nxt, str) and nxt[:1] == ".":
            return [" ", k]
        return [k]
    return rewrite(dom, put)


def keyword_joined(dom):
    """The keyword of a construct that starts with a tag other than math is joined to it."""
    def put(e, i, k):
        if i == 1 and k == " " and isinstance(e.kids[0], El) and e.kids[0].has("keyword") and len(e.kids) > 2:
            nxt = e.kids[2]
            if isinstance(nxt, El) and not nxt.has("math") or nxt == "[":  # a citation
                return []
        return [k]
    return rewrite(dom, put)


def rewrite(el, put):
    e = El(el.tag, dict(el.attrs))
    for i, k in enumerate(el.kids):
        for x in put(el, i, k):
            e.kids.append(rewrite(x, put) if isinstance(x, El) else x)
    return e


def describe(case):
    return emit(make(case))


def known(v, h, have):
    """The recorded findings that together explain what view h shows, if any do."""
    want = v.want_dom
    for key, f in (("blank-around-code", code_spaced), ("keyword-joined", keyword_joined), ("blank-before-math-dot", dot_spaced)):
        if key == "blank-before-math-dot" and not h:
            break
        new = f(want)
        if whole(new) != whole(want):
            want = new
            if whole(want) == have:
                return key
    return None


def run(case):
    v = Views(make(case))
    vs = []
    want = whole(v.want_dom)
    for h, dom in v.got.items():
        have = whole(dom)
        if have == want:
            continue
        key = known(v, h, have)
        if key:
            vs.append(Violation(key, "recorded", v.src))
        else:
            vs.append(Violation(f"words:{case[0]}", f"the words shown are not the words written ({'handrails' if h else 'plain'} page)",
                                v.src + "\n" + firstdiff(want, have)))
    return Result(vs, want, execs=v.execs, steps=len(case[1]), trivial=len(case[1]) == 1)
