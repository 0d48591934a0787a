"""P07: the table of contents mirrors the section tree."""
from itertools import product

from core import Result, Violation
from docmodel import H, P, T, doc, emit
from families import BIB, MB, PROOF, STEP, THM, relabel
from views import Views

PROPERTY = "P07"
RULE = ("all section trees up to the bound (sections, subsections and subsubsections, numbered or not, labelled or not, "
        "an appendix anywhere), with the table of contents at the top or in the last section, one, two or three of "
        "them, with and without text, theorems and proofs between the headings; trivial: no section and no table")
ASSUMPTIONS = ["a table of contents stands where the grammar allows it: after a block, and not before a deeper heading"]

HEADS = {
    "2": H(2, "Two@", label="a@"), "2u": H(2, "Un@"), "2n": H(2, "Non@", nonum=True, label="n@"),
    "3": H(3, "Three@", label="b@"), "3u": H(3, "Uns@"), "3n": H(3, "Nons@", nonum=True),
    "4": H(4, "Four@", label="c@"), "4n": H(4, "Nonf@", nonum=True, label="m@"),
    "A": ("appendix",),
}
BETWEEN = {"-": (), "p": (P("w@"),), "t": (THM("theorem", P("w@"), label="t@"),), "r": (PROOF(STEP(P("w@"))),), "q": (P("w@", MB("x")),)}


def trees(names, k):
    for seq in product(names, repeat=k):
        level, app, ok = 1, False, True
        for s in seq:
            if s == "A":
                if app:
                    ok = False
                    break
                app, level = True, 1
            else:
                lv = int(s[0])
                if lv > level + 1:
                    ok = False
                    break
                level = lv
        if ok:
            yield seq


def cases(tier):
    quick = tier == "quick"
    names = tuple(HEADS)
    for k in range(0, 5 if quick else 6):
        for t in trees(names, k):
            yield ("top", t, "-", 1)
    for k in (5, 6) if quick else (6, 7):
        for t in trees(("2", "2n", "3", "4", "A"), k):
            yield ("top", t, "-", 1)
    if not quick:
        for t in trees(("2", "3", "4"), 10):
            yield ("top", t, "-", 1)
    for k in range(1, 4 if quick else 5):
        for t in trees(("2", "3", "4", "A", "3n"), k):
            for b in BETWEEN:
                for n in (1, 2, 3):
                    yield ("top", t, b, n)
                if b != "-" and t[-1] != "A":
                    yield ("last", t, b, 1)
                    yield ("last", t, b, 2)
                    yield ("both", t, b, 2)
                yield ("bib", t, b, 1)
                yield ("none", t, b, 0)


    for n in (11, 28) if quick else range(8, 41):
        for t in (("2",) * n, ("2",) + ("3",) * n, ("2", "3") + ("4",) * n, ("A",) + ("2",) * n, ("2n",) * n, ("2", "3") * n, ("2", "3", "4") * n, ("2", "A") + ("2", "3") * n):
            yield ("top", t, "-", 1)


def make(case):
    where, t, b, n = case
    out = [P("intro")]
    if where in ("top", "both", "bib"):
        for i in range(n if where != "both" else 1):
            out += [("toc",)]
            if i < n - 1:
                out += [P(f"gap{i}")]
    for i, s in enumerate(t):
        out.append(relabel(HEADS[s], i))
        out += relabel(BETWEEN[b], i)
    if where in ("last", "both"):
        for i in range(n if where == "last" else 1):
            out += [("toc",), P(f"end{i}")]
    if where == "bib":
        out.append(("bib",))
    return doc(*out, meta=(("title", "T"),), bib=BIB if where == "bib" else ())


def describe(case):
    return emit(make(case))


def clean(s):
    return " ".join(s.split())


def entry(li):
    a = [k for k in li.els if k.tag == "a"]
    subs = [k for k in li.els if k.tag == "ul"]
    return (tuple((clean(x.text()), x.attrs.get("href"), x.has("reference")) for x in a),
            tuple(entry(k) for u in subs for k in u.els), len(subs))


def tables(dom):
    """Every table of contents: its place among its siblings and its entries."""
    out = []
    for e in dom.walk():
        if e.tag == "ul" and e.has("contents"):
            toc = e.parent.parent
            sib = [k for k in toc.parent.els]
            before = sib[sib.index(toc) - 1] if sib.index(toc) else None
            out.append((toc.parent.tag, "".join(before.text().split()) if before is not None and before.has("paragraph") else "",
                        tuple(entry(k) for k in e.els), tuple(k.tag for k in e.els)))
    return out


def marks(box):
    """(level by radius, link) per mark of a minimap."""
    got = []
    for e in box.walk():
        if e.tag == "circle" and "fill" not in e.attrs:
            got.append((e.attrs.get("r"), e.attrs.get("cy")))
    return got


def run(case):
    v = Views(make(case))
    vs = v.compare(tables, "toc", "the table of contents is not the section tree")
    heads = [n for n in v.ref.walk() if n.kind == "head"]
    page = v.raw[True]
    maps = [e for e in page.walk() if e.has("minimap")]
    tocs = [e for e in page.walk() if e.has("toc")]
    if len(tocs) != min(1, case[3]) or any(sum(e.has("minimap") for e in t.walk()) != 1 for t in tocs):
        vs.append(Violation("tables", f"{len(tocs)} tables of contents, {len(maps)} minimaps", v.src))
    for m in maps:
        got = marks(m)
        order = [int(r) for r, _ in got]
        cys = [int(c) for _, c in got]
        sizes = {}
        bad = len(got) != len(heads) or cys != sorted(set(cys))
        if not bad:
            for n, r in zip(heads, order):
                bad |= sizes.setdefault(n.b[1], r) != r
            s = [sizes[k] for k in sorted(sizes)]
            bad |= s != sorted(set(s), reverse=True)
        hrefs = [e.attrs.get("href") for e in m.walk() if e.tag == "a"]
        if hrefs and hrefs != [f"#{n.label}" for n in heads]:
            bad = True
        if bad:
            vs.append(Violation("minimap", "the minimap does not have one mark per section, in order and sized by level",
                                f"{v.src}\nmarks {got}\nlinks {hrefs}\nsections {[(n.b[1], n.label) for n in heads]}"))
            break
    if case[0] in ("top", "both", "bib") and case[3] and not any(e.has("float-minimap-wrapper") for e in page.walk()):
        vs.append(Violation("minimap", "no floating minimap", v.src))
    return Result(vs, tuple(tables(v.want_dom)), execs=2, steps=len(heads) + len(maps), trivial=not heads and not case[3])
