"""P13: the linter reports exactly the documented problems, where they are."""
import logging
import re
from itertools import product

import rsm
import rsm.app
import rsmio
from core import Result, Violation

PROPERTY = "P13"
RULE = ("all sequences of 62 blocks (headings of every level and notation with and without label, equations inside and outside of paragraphs in every "
        "container, and look-alikes in verbatim text) up to the bound, under 5 kinds of title and 6 whole-file layouts; each linted by the lint application, "
        "and by the build application, whose page is compared with the page built without linting; trivial: nothing to report")
ASSUMPTIONS = ["an equation marked as a claim is left out of the space: no document says whether its claim counts as a paragraph",
               "columns are counted in bytes of UTF-8, as tree-sitter does; the space has no other characters before an equation on its line",
               "the builder and writer, which have their own property, are taken off the build application"]

# In the templates \1 stands before a heading and \2 before an equation that must be reported.
S, E = "\1", "\2"
HEADS = {}
for lv, tag in ((2, "section"), (3, "subsection"), (4, "subsubsection")):
    h = "#" * lv
    HEADS[f"h{lv}"] = f"{S}{h} Head@"
    HEADS[f"h{lv}l"] = f"{h} Head@\n  :label: h{lv}x@"
    HEADS[f"h{lv}n"] = f"{S}{h} Head@\n  :nonum:"
    HEADS[f"h{lv}t"] = f"{S}:{tag}:\n  :title: Head@"
    HEADS[f"h{lv}tl"] = f":{tag}:\n  :title: Head@\n  :label: h{lv}y@"
    HEADS[f"h{lv}lt"] = f"{h} Head@\n  :types: {{a, b}}\n  :label: h{lv}z@"
    HEADS[f"h{lv}ty"] = f"{S}{h} Head@\n  :types: {{a, b}}"
OTHERS = {
    "p": "word@ and $x$.",
    "eq": f"{E}$$\nx_@\n$$",
    "eql": f"{E}$$\n  :label: e@\nx_@\n$$",
    "eqn": f"{E}$$\n  :nonum:\nx_@\n$$",
    "eqt": f"{E}:mathblock:\nx_@\n::",
    "eqtl": f"{E}:mathblock:\n  :label: f@\nx_@\n::",
    "eqw": f"{E}$$\nx_@\n$$\nword@",
    "peq": "word@\n$$\nx_@\n$$",
    "peqp": "word@\n$$\n  :label: g@\nx_@\n$$\nmore@",
    "peqt": "word@\n:mathblock:\nx_@\n::\nmore@",
    "peqeq": "word@\n$$\nx_@\n$$\nmore@\n$$\ny_@\n$$",
    "thm": ":theorem:\n  :label: t@\n\nword@\n\n::",
    "thme": f":theorem:\n\n{E}$$\nx_@\n$$\n\n::",
    "thmpe": ":theorem:\n\nword@\n$$\nx_@\n$$\n\n::",
    "thmme": f":lemma:\n\nword@\n$$\nx_@\n$$\n\n{E}$$\ny_@\n$$\n\nmore@\n\n::",
    "proofe": f":proof:\n\n:step: word@\n\n{E}$$\nx_@\n$$\n\n::\n\n::",
    "proofpe": ":proof:\n\n:step: word@\n\nmore@\n$$\nx_@\n$$\n\n::\n\n::",
    "sube": f":proof:\n\n:step: word@\n\n:p:\n\n:step: more@\n\n{E}$$\nx_@\n$$\n\n::\n\n::\n\n::\n\n::",
    "proofx": f":proof:\n\n{E}$$\nx_@\n$$\n\n::",
    "sketche": f":sketch:\n\n{E}$$\nx_@\n$$\n\n::",
    "absp": ":abstract:\n\nword@\n$$\nx_@\n$$\n\n::",
    "abse": f":abstract:\n\n{E}$$\nx_@\n$$\n\n::",
    "item": f":itemize:\n\n:item: {E}$$\nx_@\n$$\n\n:item: word@\n\n::",
    "items": f":enumerate:\n\n:item: word@ {E}$$\nx_@\n$$\n\n::",
    "table": ":table:\n\n:tbody:\n\n:tr: $a$ : b@ ::\n\n::\n\n::",
    "fig": ":figure:\n  :path: a.png\n\n:caption: word@ $x$\n\n::",
    "code": "```\n## Head@\n$$\nx\n$$\n```",
    "comment": "% ## Head@ $$",
    "alg": ":algorithm:\n## Head@\n::",
    "quote": "a `## Head@` and `$$`.",
    "toc": ":toc:\n\n::",
    "app": ":appendix:",
    "bib": ":bibliography: ::",
    "author": ":author:\n  :name: Nam@\n::",
    "note": "word@ :note: more $x$ ::.",
    "pt": ":paragraph: {:label: p@} word@\n$$\nx_@\n$$",
    "para": f":paragraph: {{:label: q@}} word@\n\n{E}$$\nx_@\n$$",
}
BLOCKS = {**HEADS, **OTHERS}
NAMES = tuple(BLOCKS)
TITLES = {
    "none": "\3:rsm:", "meta": ":rsm:\n  :title: Tit", "date": "\3:rsm:\n  :date: 2020-01-01", "both": ":rsm:\n  :date: 2020-01-01\n  :title: Tit",
    "short": ":rsm:\n# Tit",
}
LAYOUTS = ("plain", "indent", "tab", "blank", "lead", "comments", "banner", "far")


def level(name):
    return int(name[1]) if name in HEADS else 0


def legal(seq):
    lv, seen, prev, bib = 1, set(), "h", False
    for name in seq:
        if bib:
            return False
        if name == "toc" and (prev == "h" or lv > 1 or "toc" in seen):
            return False
        if name in ("app", "bib") and name in seen:
            return False
        seen.add(name)
        bib = name == "bib"
        if name == "app":
            lv = 1
        if level(name):
            if level(name) > lv + 1:
                return False
            lv = level(name)
        prev = name[0] if name in HEADS else name
    return True


def source(case):
    """(text, expected [(kind, line, column)])"""
    seq, title, lay = case
    chunks = [TITLES[title]] + ["w"] * (130 if lay == "far" else 0)
    for i, n in enumerate(seq):
        c = BLOCKS[n].replace("@", str(i))
        if lay in ("indent", "tab") and n not in ("code", "alg"):
            pad = "\t" if lay == "tab" else "   "
            c = "\n".join(pad + x if x else x for x in c.split("\n"))
        chunks.append(c)
    text = {"blank": "\n\n\n\n", "comments": "\n\n% note ## x\n\n", "banner": "\n\n%%%% $$\n%% ## x\n\n"}.get(lay, "\n\n").join(chunks) + "\n\n::\n"
    if lay == "lead":
        text = "\n\n" + text
    if lay in ("comments", "banner"):
        text = "% first line\n\n" + text
    out, want = [], []
    for ln, line in enumerate(text.split("\n"), 1):
        while True:
            at = [line.index(c) for c in "\1\2\3" if c in line]
            if not at:
                break
            k = min(at)
            want.append(({"\1": "section", "\2": "equation", "\3": "title"}[line[k]], ln, k + 1))
            line = line[:k] + line[k + 1:]
        out.append(line)
    return "\n".join(out), want


def describe(case):
    return source(case)[0]


def cases(tier):
    quick = tier == "quick"
    for seq in seqs(NAMES, 1):
        for t in TITLES:
            for lay in LAYOUTS:
                yield (seq, t, lay)
    for seq in seqs(NAMES, 2, 2):
        for t, lay in (("none", "plain"), ("meta", "indent")) if quick else product(TITLES, LAYOUTS):
            yield (seq, t, lay)
    for name in NAMES:
        for n in (11, 28) if quick else range(4, 41):
            for t, lay in (("none", "plain"), ("meta", "far")):
                for lead in ((), ("h2",), ("h2", "h3")):
                    if legal(lead + (name,) * n):
                        yield (lead + (name,) * n, t, lay)
                        break
    core = ("h2", "h2l", "h3t", "h3tl", "h4", "h4l", "p", "eq", "peq", "thme", "proofe", "items", "code", "app")
    for seq in seqs(core, 3, 3) if quick else seqs(NAMES, 3, 3):
        yield (seq, "none", "plain")
    if not quick:
        for seq in seqs(core, 4, 4):
            yield (seq, "meta", "plain")
        for seq in seqs(("h2", "h2l", "h3", "h3l", "h4", "h4l", "eq", "peq"), 5, 5):
            yield (seq, "short", "plain")


def seqs(names, n, least=0):
    for k in range(least, n + 1):
        for seq in product(names, repeat=k):
            if legal(seq):
                yield seq


class Sink(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, r):
        self.records.append(r)


def go(app):
    """(result, lint records) of running an application."""
    lg = logging.getLogger("RSM")
    sink = Sink()
    logging.disable(logging.NOTSET)
    lg.handlers[:] = [sink]
    try:
        out = app.run()
    finally:
        lg.handlers[:] = []
        logging.disable(logging.CRITICAL)
    return out, sink.records


def kind_of(msg):
    m = msg.lower()
    if m.startswith(("mathblock", "equation")) or "paragraph" in m:
        return "equation"
    if "title" in m:
        return "title"
    if "label" in m and "section" in m:
        return "section"
    return msg


def reported(records):
    return sorted((kind_of(r.getMessage()), getattr(r, "start_row", None), getattr(r, "start_col", None))
                  for r in records if r.levelname == "LINT")


def build(src, handrails, lint):
    logging.disable(logging.CRITICAL)
    app = rsm.app.FullBuildApp(plain=src, handrails=handrails, run_linter=lint)
    app.pop_task()
    app.pop_task()
    return go(app)


def run(case):
    src, want = source(case)
    want = sorted(want)
    if case[2] in ("lead", "comments", "banner"):
        # a manuscript starts where its text starts; comments belong to it
        first = next(i for i, l in enumerate(src.split("\n"), 1) if l.strip())
        want = sorted(w if w[0] != "title" else ("title", first, 1) for w in want)
    out = []
    logging.disable(logging.CRITICAL)
    tree, records = go(rsm.app.LinterApp(plain=src))
    got = reported(records)
    if any("CST" in r.getMessage() for r in records):
        out.append(Violation("domain", "the parser reports an error in a valid manuscript", src))
    if got != want:
        extra = [x for x in got if got.count(x) > want.count(x)]
        miss = [x for x in want if want.count(x) > got.count(x)]
        out.append(Violation("report", f"lint: missing {miss}, not expected {extra}", src))
    execs = 1
    full = len(case[0]) < 3
    for h in (True, False) if full else (True,):
        web, records = build(src, h, True)
        if reported(records) != want:
            out.append(Violation("make-report", f"make reports {reported(records)}, not {want} (handrails={h})", src))
        ref, records = build(src, h, False)
        if reported(records):
            out.append(Violation("unasked", f"make without linting reports {reported(records)}", src))
        if web != ref:
            out.append(Violation("page", f"linting changes the page (handrails={h})", src))
        execs += 2
    return Result(out, (len(want), tuple(k for k, *_ in want)), execs=execs, steps=len(case[0]) + 2, trivial=not want)
