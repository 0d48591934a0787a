"""P06: citations, bibliography entries and back-links agree."""
from itertools import combinations, permutations, product

from core import Result, Violation
from docmodel import P, T, doc, emit
from families import CITE, CON, DRAFT, FIG, LIST, NOTE, PROOF, S, STEP, TABLE, THM
from project import firstdiff
from views import Views

PROPERTY = "P06"
RULE = ("all sequences of citations (single, grouped, of unknown keys, of labels that are not entries) up to the bound, "
        "in every inline container; every subset of the entry fields, in every order of up to four, for both kinds of "
        "entry; every number of entries up to the bound; all sets of author's labels that resemble generated ids; "
        "trivial: nothing cited and no entries")
ASSUMPTIONS = ["no group cites one key twice", "field values end with at most one full stop and start with none"]

FULL = {"author": "Ann Bee", "title": "Some Title", "journal": "Jour. of X", "year": "2001", "volume": "7",
        "number": "3", "publisher": "The Press", "doi": "10.1/x-y"}
VALUES = ("x,", ",x", "x;", "x:", "x.", "x..", "x...", "a. b", "a.b", "A. B.", "x & y", "x &amp; y", "<i>x</i>", "a < b", "x-y", "a--b", "(x)", "[x]", "x!", "x?",
          "x?.", "x!.", '"q"', '"q".', "'q'", "O'Neil", "Été", "10.1000/ABC(1)", "10.1/a_b", "10.1/a b", "10.1/a.", "10.1/a%2Fb?c#d", "Ann Bee", "Some Title", "Some Title.",
          "2001", "1999a", "0", "x/y", "a, b and c", "a: b", "*x*", "**x**", "_x_", "`x`", "$x$", "#x#", "x%y", "100%", "@x", "a\\b", "~", "AB", "aB",
          "Smith, J. and Doe, J.", "The", "v. 2, no. 3", "x" * 200, "word " * 60 + "end", "- x", "* x", "::x", "x::")
KEYS = ("k1", "k2", "k3")
GROUPS = (("k1",), ("k2",), ("k3",), ("k1", "k2"), ("k3", "k1"), ("k3", "k2", "k1"), ("zz",), ("k2", "zz"), ("zz", "yy"), ("par",),
          ("k1", "par"))
SOME = (("k1",), ("k2",), ("k1", "k2"), ("k2", "k1"), ("zz",), ("k2", "zz"))
BOX = {
    "p": lambda x: P("see ", *x, T(" end")),
    "span": lambda x: P(("span", ("strong",), (T("b "), *x), ())),
    "con": lambda x: P(CON("let", T("b "), *x)),
    "note": lambda x: P("a ", NOTE(T("b "), *x), T(" c")),
    "draft": lambda x: P("a ", DRAFT(T("b "), *x), T(" c")),
    "item": lambda x: LIST("enumerate", (T("b "), *x)),
    "td": lambda x: TABLE(None, (((T("b "), *x),),)),
    "cap": lambda x: FIG((T("b "), *x)),
    "thm": lambda x: THM("theorem", P("b ", *x)),
    "step": lambda x: PROOF(STEP(P("b ", *x))),
    "abs": lambda x: ("abstract", (P("b ", *x),), ()),
}


def entries(n, fields=None):
    return tuple(("article" if i % 2 == 0 else "book", f"k{i + 1}",
                  tuple((k, v.replace("X", f"X{i}").replace("Title", f"Title{i}")) for k, v in FULL.items() if fields is None or k in fields))
                 for i in range(n))


def cases(tier):
    quick = tier == "quick"
    for n in range(0, 3):
        for seq in product(GROUPS, repeat=n):
            yield ("seq", seq, 3)
    for n in (3,) if quick else (3, 4):
        for seq in product(SOME, repeat=n):
            yield ("seq", seq, 3)
    if not quick:
        for seq in product(GROUPS, repeat=3):
            yield ("seq", seq, 3)
    for n in range(0, 4):
        for seq in product(SOME, repeat=2):
            yield ("seq", seq, n)
    for a, b in product(BOX, BOX):
        for x, y in product(SOME, SOME):
            if quick and (x, y) not in ((("k1",), ("k1",)), (("k1", "k2"), ("k2",)), (("zz",), ("k2", "k1"))):
                continue
            yield ("box", a, b, x, y)
    names = tuple(FULL)
    for kind in ("article", "book"):
        for k in range(2, len(names) + 1):  # the grammar wants two fields
            for sub in combinations(names, k):
                for cited in (False, True):
                    yield ("fields", kind, sub, cited)
        for k in (2, 3) if quick else (2, 3, 4):
            for sub in permutations(("author", "title", "journal", "publisher", "year", "doi"), k):
                yield ("fields", kind, sub, True)
    for f in FULL:
        for v in VALUES:
            for kind in ("article", "book"):
                for rest in ("all", "one"):
                    yield ("value", kind, f, v, rest)
    if not quick:
        for f, g in combinations(("author", "title", "journal", "publisher", "year", "doi"), 2):
            for v, w in product(VALUES, repeat=2):
                yield ("values", f, v, g, w)
    for n in (10, 12, 30):
        yield ("many", n)
        yield ("often", n)
        yield ("wide", n)
    labels = ("cite-0", "cite-1", "cite-2", "cite-0-0", "cite-0-1", "cite-1-0", "cite-", "cite-00", "Cite-0", "cite-10", "k1", "k2")
    for k in range(1, 4 if quick else 6):
        for sub in combinations(labels, k):
            for seq in ((("k1",), ("k1", "k2")), (("k2", "k1"), ("k2",), ("k1",))):
                for early in (0, 1):
                    yield ("clash", sub, seq, early)
    for labs in product(KEYS, repeat=3):
        for par in (None, "k1", "k2"):
            yield ("dup", labs, par)
    for where in ("before", "after", "mid"):
        for seq in product(SOME, repeat=2):
            yield ("place", where, seq)


def make(case):
    kind = case[0]
    if kind == "seq":
        _, seq, n = case
        body = [T("x")]
        for g in seq:
            body += [T(" y "), CITE(*g)]
        return doc(("p", tuple(body), (("label", "par"),)), ("bib",), bib=entries(n))
    if kind == "box":
        _, a, b, x, y = case
        return doc(BOX[a]((CITE(*x),)), P("mid", meta=(("label", "par"),)), BOX[b]((CITE(*y), T(" and "), CITE("k1"))), ("bib",), bib=entries(2))
    if kind == "fields":
        _, k, sub, cited = case
        it = (k, "k1", tuple((f, FULL[f]) for f in sub))
        other = ("book", "k2", (("author", "Zed."), ("title", "End.")))
        return doc(P("x ", *((CITE("k1"), T(" "), CITE("k2", "k1")) if cited else ())), ("bib",), bib=(it, other))
    if kind == "value":
        _, k, f, val, rest = case
        keep = FULL if rest == "all" else {f: "", "title" if f != "title" else "year": FULL["title" if f != "title" else "year"]}
        it = (k, "k1", tuple((x, val if x == f else FULL[x]) for x in keep))
        return doc(P("x ", CITE("k1")), ("bib",), bib=(it, ("book", "k2", (("author", "Zed."), ("title", "End.")))))
    if kind == "values":
        _, f, a, g, b = case
        it = tuple((x, a if x == f else b if x == g else FULL[x]) for x in FULL)
        return doc(P("x ", CITE("k1"), T(" "), CITE("k2")), ("bib",), bib=(("article", "k1", it), ("book", "k2", it)))
    if kind == "many":
        body = [T("x")]
        for i in range(case[1]):
            body += [T(" "), CITE(f"k{i + 1}"), T(" "), CITE(f"k{case[1] - i}", f"k{i // 2 + 1}")] if f"k{case[1] - i}" != f"k{i // 2 + 1}" else [T(" "), CITE(f"k{i + 1}")]
        return doc(P(*body), ("bib",), bib=entries(case[1]))
    if kind == "often":
        body = [T("x")]
        for i in range(case[1]):
            body += [T(" "), CITE("k1"), T(" "), CITE("k2", "k1")]
        return doc(P(*body), P("z ", CITE("k2")), ("bib",), bib=entries(3))
    if kind == "wide":
        all_ = [f"k{i + 1}" for i in range(case[1])]
        return doc(P("x ", CITE(*all_), T(" "), CITE(*all_[::-1])), P("z ", CITE("k2")), ("bib",), bib=entries(case[1]))
    if kind == "clash":
        _, sub, seq, early = case
        ps = [P("w", meta=(("label", l),)) for l in sub]
        body = [T("x")]
        for g in seq:
            body += [T(" "), CITE(*g)]
        cs = [P(*body)]
        return doc(*(ps + cs if early else cs + ps), ("bib",), bib=entries(2))
    if kind == "dup":
        _, labs, par = case
        its = tuple((k, l, f) for (k, _, f), l in zip(entries(3), labs))
        return doc(P("x ", CITE("k1"), T(" "), CITE("k2", "k1"), T(" "), CITE("k3")), P("w", meta=(("label", par),) if par else ()), ("bib",), bib=its)
    _, where, seq = case
    ps = [P("x ", CITE(*g)) for g in seq]
    if where == "mid":
        return doc(ps[0], ("head", 2, "S", ()), ps[1], ("bib",), bib=entries(2))
    if where == "before":
        return doc(*ps, bib=())
    return doc(("head", 2, "S", ()), *ps, ("appendix",), ("head", 2, "A", ()), P("y ", CITE("k2")), ("bib",), bib=entries(2))


def describe(case):
    return emit(make(case))


def clean(s):
    return " ".join(s.split())


def seen(dom):
    """Citations (with the brackets around them) and bibliography entries, in page order."""
    out = []
    for e in dom.walk():
        if e.has("cite"):
            up = e.parent
            out.append(("cite", e.id, e.attrs.get("href"), clean(e.text()), " ".join(sorted(e.classes)),
                        up.id if up and up.tag == "span" and up.id.startswith("cite-") else ""))
        elif e.has("bibitem"):
            links = tuple((a.attrs.get("href"), clean(a.text())) for a in e.walk() if a.has("backlink"))
            out.append(("entry", e.id, clean(e.text()), links))
        elif e.tag == "p" or e.tag in ("li", "td", "figcaption"):
            if any(x.has("cite") for x in e.walk()):
                out.append(("text", clean(e.text())))
    return out


def dois(page):
    return [(e.attrs.get("href"), e.attrs.get("target")) for e in page.walk()
            if e.tag == "a" and e.attrs.get("href", "").startswith("https://doi.org")]


def run(case):
    v = Views(make(case))
    vs = v.compare(seen, "citation", "a citation or an entry is wrong")
    want = [(f"https://doi.org/{dict(n.b[2])['doi']}", "_blank") for n in v.ref.walk() if n.kind == "bibitem" and "doi" in dict(n.b[2])]
    for h, p in v.raw.items():
        name = "handrails" if h else "plain"
        if dois(p) != want:
            vs.append(Violation("doi", f"DOI links are wrong ({name} page)", f"{v.src}\n{firstdiff(want, dois(p))}"))
        ids = [e.id for e in p.walk() if e.id]
        gen = [i for i in ids if i.startswith("cite-")]
        if len(gen) != len(set(gen)):
            vs.append(Violation("clash", f"ids of citations are not unique: {gen} ({name} page)", v.src))
        for e in p.walk():
            href = e.attrs.get("href", "")
            if e.tag == "a" and (e.has("cite") or e.has("backlink")) and len(href) > 1:
                hit = [x for x in p.walk() if x.id == href[1:]]
                ok = len(hit) == 1 and (hit[0].has("bibitem") if e.has("cite") else hit[0].has("cite") or any(x.has("cite") for x in hit[0].walk()))
                if not ok:
                    vs.append(Violation("target", f"{href} does not lead from citation to entry or back ({name} page)", v.src))
                    break
    w = seen(v.want_dom)
    return Result(vs, (tuple(w), tuple(want)), execs=2, steps=len(w), trivial=not w)
