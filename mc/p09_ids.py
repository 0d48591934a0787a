"""P09: identifiers are unique, sit where they should, and number the nodes in order."""
import re
from collections import Counter
from itertools import product

from core import Result, Violation
from docmodel import H, P, T, doc, emit
from families import BIB, BLOCKS, CITE, REF, build, copies, twins, sequences
from p05_refs import BLOCKISH, TARGETS
from project import text_of
from views import Views

PROPERTY = "P09"
RULE = ("(a) all block sequences up to the bound; (b) all pairs (thorough: triples) of labellable kinds in nesting-free order with "
        "labels chosen equal, distinct or looking like generated ones, next to citations, a table of contents and a "
        "bibliography; in both views every id is counted, every label's element compared with the reference renderer's, and "
        "the node ids compared between the views; trivial: documents without any label")
ASSUMPTIONS = ["labels are drawn from the listed shapes; section titles and texts are fixed"]

FEW = ("theorem", "p", "h2", "h3", "step", "substep", "item", "list", "fig", "table", "mb", "mbd", "claim", "span", "con", "math",
       "icode", "codeblock", "alg", "note", "draft", "author", "sketch", "proof")
GENERATED = ("cite-0", "cite-1", "cite-0-0", "cite-00", "cite-", "Cite-0", "k1", "k2", "k1-doi", "mm-sa", "mm-", "minimap", "gradient-mask",
             "toc", "bibliography", "abstract", "step-1", "0", "1", "title", "man", "sa", "ta")


def cases(tier):
    quick = tier == "quick"
    for seq in sequences(BLOCKS, 2 if quick else 3):
        yield ("seq", seq)
    for seq in copies(tier):
        yield ("seq", seq)
    for seq in twins(tier):
        yield ("twins", seq)
    for a in BLOCKISH:
        for g in GENERATED:
            yield ("gen", a, g)
    for a, b in product(FEW, repeat=2):
        for pat in ((0, 0), (0, 1)):
            yield ("labs", (a, b), pat)
    few = FEW if not quick else ("theorem", "p", "h2", "item", "mb", "span", "step", "fig")
    for ks in product(few, repeat=3):
        for pat in ((0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)):
            yield ("labs", ks, pat)


def make(case):
    if case[0] == "twins":
        return build(case[1], alike=True)
    if case[0] == "seq":
        return build(case[1])
    if case[0] == "labs":
        out = []
        app = ("appendix",)
        for k, i in zip(case[1], case[2]):
            out += [x for x in TARGETS[k](f"l{i}", "", ()) if not (x == app and app in out)]
        return doc(P("r ", REF("l0"), T(" "), REF("l1")), *out)
    _, a, g = case
    tgt = TARGETS[a](g, "", ())
    return doc(P("r ", REF(g), T(" "), CITE("k1"), T(" "), CITE("k1", "k2"), T(" "), CITE("zz")), ("toc",), P("w"),
               ("head", 2, "Sec", (("label", "sa"),)), P("v", meta=(("label", "ta"),)), ("head", 2, "Sed", (("label", "sb"),)), *tgt,
               ("bib",), meta=(("title", "T"), ("label", "man")), bib=BIB)


def describe(case):
    return emit(make(case))


def idents(dom):
    out = []
    for e in dom.walk():
        if e.id:
            what = [c for c in e.classes if c != "hr-label"]
            out.append((e.tag, e.id, " ".join(sorted(what)), "".join(e.text().split())[:20]))
    return out


def squash(s):
    return "".join(s.split())


def excuse(i, labels):
    """Recorded findings, each for exactly the ids it is about."""
    if i == "gradient-mask":
        return "minimap-mask"
    if i == "mm-":
        return "minimap-unlabelled"
    if i.startswith("mm-") and i in labels:
        return "minimap-label"
    if i.endswith("-doi") and i in labels:
        return "doi-label"
    return None


# elements that each stand for a node of the manuscript
NODES = {
    "div": {"abstract", "author", "bibitem", "bibliography", "claimblock", "codeblock", "theorem", "step", "manuscript", "mathblock", "proof", "sketch", "statement", "subproof"},
    "figure": {"figure"}, "li": {"bibitem", "item"}, "ol": {"bibliography", "enumerate"}, "ul": {"contents", "itemize"},
    "section": {"section", "subsection", "subsubsection"}, "span": {"construct", "draft", "math"},
    "table": {"table"}, "tbody": {"tablebody"}, "thead": {"tablehead"}, "tr": {"tablerow"}, "td": {"tabledatum"},
}


def run(case):
    d = make(case)
    v = Views(d)
    out = v.compare(idents, "label", "a label is missing, or not on the element it labels")
    labels = set(re.findall(r":label: *([^,}\n]*[^,}\s])", v.src))
    numbers = {}
    for h, root in v.raw.items():
        where = f"({'handrails' if h else 'plain'} page)"
        for i, n in Counter(e.attrs["id"] for e in root.walk() if e.attrs.get("id")).items():
            if n > 1:
                key = excuse(i, labels) or "duplicate-id"
                if key == "minimap-mask" and n != 2 + (i in labels):
                    key = "duplicate-id"
                out.append(Violation(key, f"{n} elements have the id {i!r} {where}", v.src))
        seen = []
        for e in root.walk():
            n = e.attrs.get("data-nodeid")
            if n is None:
                if "icon" not in e.classes and NODES.get(e.tag, set()) & set(e.classes):
                    out.append(Violation("nodeid-missing", f"a node without a number: {e.tag}.{'.'.join(sorted(e.classes))} {where}", v.src))
                continue
            if not n.isdigit():
                out.append(Violation("nodeid", f"node id {n!r} {where}", v.src))
                continue
            seen.append(int(n))
        if any(a >= b for a, b in zip(seen, seen[1:])):
            out.append(Violation("nodeid-order", f"node ids do not number the nodes in order {where}: {seen}", v.src))
        numbers[h] = {e.attrs["data-nodeid"]: (e.attrs.get("id", ""), squash(text_of(e))) for e in v.got[h].walk() if "data-nodeid" in e.attrs}
    for n in numbers[False].keys() & numbers[True].keys():
        if numbers[False][n] != numbers[True][n]:
            out.append(Violation("nodeid-view", f"node id {n} is another node in the handrails view: {numbers[False][n]} {numbers[True][n]}", v.src))
            break
    if lost := numbers[False].keys() ^ numbers[True].keys():
        out.append(Violation("nodeid-lost", f"node ids {sorted(lost)} in one view only", v.src))
    ids = idents(v.want_dom)
    return Result(out, (tuple(ids), len(numbers[False])), execs=2, steps=len(ids), trivial=not ids)
