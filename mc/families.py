"""Document families shared by several checks.  Pure data: no rsm here."""
from itertools import product

from docmodel import H, P, T, THM_KINDS, doc

S = lambda w, *a: ("span", a or ("strong",), (T(w),), ())  # noqa: E731
M = lambda x, *meta: ("math", x, tuple(meta))  # noqa: E731
MB = lambda x, *meta: ("mb", x, tuple(meta))  # noqa: E731
REF = lambda l, t="": ("ref", l, t)  # noqa: E731
CITE = lambda *l: ("cite", tuple(l))  # noqa: E731
URL = lambda u, t="": ("url", u, t)  # noqa: E731
CODE = lambda c, *meta: ("code", c, tuple(meta))  # noqa: E731
CON = lambda k, *kids: ("con", k, tuple(T(x) if isinstance(x, str) else x for x in kids), ())  # noqa: E731
NOTE = lambda *kids: ("note", tuple(T(x) if isinstance(x, str) else x for x in kids), ())  # noqa: E731
DRAFT = lambda *kids: ("draft", tuple(T(x) if isinstance(x, str) else x for x in kids), ())  # noqa: E731
PREV = lambda n, form="prev", text="": ("prev", n, form, text)  # noqa: E731


def THM(kind, *blocks, **meta):
    return ("thm", kind, tuple(blocks), tuple(meta.items()))


def PROOF(*steps, **meta):
    return ("proof", tuple(steps), tuple(meta.items()))


def STEP(*blocks, sub=None, **meta):
    return ("step", tuple(blocks), sub, tuple(meta.items()))


def LIST(kind, *items, **meta):
    return ("list", kind, tuple((i, ()) if not (len(i) == 2 and isinstance(i[0], tuple) and i[0] and isinstance(i[0][0], tuple)) else i for i in items), tuple(meta.items()))


def FIG(cap=None, **meta):
    meta = {"path": "a.png", **meta}
    return ("fig", cap, tuple(meta.items()))


def TABLE(head, body, cap=None, **meta):
    return ("table", head, body, cap, tuple(meta.items()))


def row(*cells):
    return tuple((T(c),) if isinstance(c, str) else c for c in cells)


BIB = (
    ("article", "k1", (("author", "Ann Bee"), ("title", "First"), ("journal", "Jour"), ("year", "2001"), ("doi", "10.1/x"))),
    ("book", "k2", (("author", "Cee"), ("title", "Second"), ("publisher", "Press"), ("year", "1999"))),
    ("article", "k3", (("title", "Third"), ("journal", "Notes"))),
)


def relabel(x, i):
    """Make words and labels of a template unique to position i: `@` becomes the index."""
    if isinstance(x, str):
        return x.replace("@", str(i))
    if isinstance(x, tuple):
        return tuple(relabel(y, i) for y in x)
    return x


# Block templates.  `@` is replaced by the position.
BLOCKS = {
    "p": P("para@ words here"),
    "ptitle": P("pt@ body", meta=(("title", "Lead@"), ("label", "pt@"))),
    "h2": H(2, "Sec@", label="h2l@"),
    "h2u": H(2, "Plain@"),
    "h2n": H(2, "Nonum@", nonum=True),
    "h3": H(3, "Sub@", label="h3l@"),
    "h3n": H(3, "SubN@", nonum=True),
    "h4": H(4, "Subsub@", label="h4l@"),
    "thm": THM("theorem", P("thm@ a"), P("thm@ b"), title="Named@", label="th@"),
    "lem": THM("lemma", P("lem@ text"), label="le@", types=("ta", "tb")),
    "thmn": THM("theorem", P("thn@ text"), nonum=True),
    "exr": THM("exercise", P("exr@ text")),
    "sketch": ("sketch", (P("sk@ text"),), ()),
    "proof": PROOF(STEP(P("st@ a"), label="sl@"), STEP(P("st@ b ", PREV(1)), sub=("p", (P("why@"),)))),
    "proof2": PROOF(STEP(P("deep@"), sub=(STEP(P("in@ a")), STEP(P("in@ b"), sub=("p", (P("iw@"),)))))),
    "proofp": PROOF(P("just@ words")),
    "enum": LIST("enumerate", (T("ea@ "), S("eb@")), (T("ec@"),), label="en@"),
    "item": LIST("itemize", (T("ia@"),)),
    "mb": P("eq@ before", MB("a_@", ("label", "eq@")), T("after@")),
    "mbn": P("en@ before", MB("b_@", ("nonum", True))),
    "mb0": MB("c_@", ("types", ("ua", "ub"))),
    "claim": P("cl@ before", MB("d_@", ("isclaim", True), ("label", "cb@")), T("aft@")),
    "claim0": MB("w_@", ("isclaim", True), ("label", "cz@")),
    "fig": FIG((T("cap@ "), S("f@")), label="fi@", scale="0.5"),
    "fig0": FIG(None),
    "fign": FIG((T("capn@"),), nonum=True),
    "table": TABLE((row("h@", "g@"),), (row("c@", "d@"), row("e@", "f@")), (T("tc@"),), label="tb@"),
    "tablen": TABLE(None, (row("n@"),), None, nonum=True),
    "code": ("codeblock", "x@ = 1", ()),
    "codel": ("codeblock", "y@ = 1", (("lang", "python"), ("label", "cd@"))),
    "alg": ("alg", "z@", (("label", "al@"),)),
    "abs": ("abstract", (P("abs@ a"), P("abs@ b")), (("keywords", ("kw@", "kx@")), ("msc", ("m@", "n@")))),
    "author": ("author", (("name", "Nam@"), ("affiliation", "Aff@"), ("email", "e@x"))),
    "author1": ("author", (("name", "Solo@"),)),
    "toc": ("toc",),
    "app": ("appendix",),
    "bib": ("bib",),
    "cite": P("cit@ ", CITE("k1"), T(" and "), CITE("k1", "k2"), T(" end@")),
    "inl": P("i@ ", S("bo@"), T(" "), S("em@", "emphas"), T(" "), M("x@"), T(". "), CODE("c@"), T(" "),
             NOTE("no@"), T(" "), DRAFT("dr@"), T(" "), URL("http://u@", "site@")),
    "con": P(CON("let", M("x@"), " be@"), T(" "), CON("claim", "cl@"), T(" "), CON("suffices", "su@"), T(" "), CON("wlog", "wl@")),
    "xref": P("see@ ", REF("nope@")),
}
# At most one of each per document, and some need company.
ONCE = {"toc", "app", "bib"}


def legal(seq):
    """Sections nest without gaps; one toc, appendix and bibliography at most."""
    level = 1
    seen = set()
    prev = "h"
    for name in seq:
        if name == "toc" and (prev[0] == "h" or level > 1):
            return False  # the grammar rejects one first in the text, or before a section's end
        if name == "author0" and prev == "toc":
            return False  # the grammar takes the author's :: for the end of the table of contents
        prev = name
        if name in ONCE:
            if name in seen:
                return False
            seen.add(name)
        if "bib" in seen and name != "bib":
            return False  # the bibliography comes last
        if name == "app":
            level = 1
        if name[0] == "h" and name[1:2].isdigit():
            lv = int(name[1])
            if lv > level + 1:
                return False
            level = lv
    return True


def sequences(names, n, least=0):
    names = tuple(names)
    for k in range(least, n + 1):
        for seq in product(names, repeat=k):
            if legal(seq):
                yield seq


def unlabelled(x):
    """Without labels, so that it can be repeated word for word."""
    if isinstance(x, tuple):
        return tuple(unlabelled(y) for y in x if not (isinstance(y, tuple) and len(y) == 2 and y[0] == "label"))
    return x


def twins(tier, names=None):
    """Sequences of blocks that are alike to the letter."""
    names = [n for n in names or BLOCKS if n not in ONCE]
    for a in names:
        for seq in ((a, a), (a, a, a), (a, "p", a), ("p", a, "p", a), ("h2", a, "h2", a), ("h2", "h3", a, "h3", a)):
            if legal(seq):
                yield seq
        for b in names:
            if tier != "quick" and legal((a, b, a, b)):
                yield (a, b, a, b)


def copies(tier, names=None):
    """Sequences of many blocks of one kind, and of all kinds over and over."""
    names = [n for n in names or BLOCKS if n not in ONCE]
    for n in (11, 28) if tier == "quick" else range(4, 41):
        for name in names:
            lead = ("h2", "h3")[:int(name[1]) - 2] if name[0] == "h" and name[1:2].isdigit() else ()
            yield lead + (name,) * n
            if not lead and (tier != "quick" or n == 11):
                yield ("h2", "h3") + (name,) * n
        for name in ("h2", "thm"):
            if name in names:
                yield ("app",) + (name,) * n
    yield tuple(n for n in names if n[0] != "h") * 3
    if {"h2", "h3", "h4"} <= set(names):
        yield ("h2", "h3", "h4", "h4", "h3", "h3", "h4") * 12


def build(seq, meta=(), table=BLOCKS, extra=(), end=True, alike=False):
    """Document of the named blocks; a bibliography is added when something cites."""
    blocks = [unlabelled(relabel(table[n], 0)) if alike else relabel(table[n], i) for i, n in enumerate(seq)]
    bib = ()
    if any(n == "cite" for n in seq) and "bib" not in seq:
        blocks.append(("bib",))
    if any(n in ("cite", "bib") for n in seq):
        bib = BIB
    return doc(*blocks, *extra, meta=meta, bib=bib)


# Paragraphs as sequences of parts; display math ends the running text and what follows begins anew.
PARTS = {
    "t": T("w@ "), "s": S("s@"), "m": M("x_@"), "n": NOTE("n@"),
    "B": MB("b_@"), "L": MB("l_@", ("label", "pl@")), "N": MB("n_@", ("nonum", True)), "C": MB("c_@", ("isclaim", True)),
}


def para(seq):
    """Display math first in a paragraph is a block of its own, so begin with text."""
    return P(T("w "), *(relabel(PARTS[c], i) for i, c in enumerate(seq)))


def paras(n, display="BLNC", inline="tsmn", least=1):
    for k in range(least, n + 1):
        for seq in product(inline + display, repeat=k):
            if any(c in display for c in seq):
                yield "".join(seq)
