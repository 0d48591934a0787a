"""P12: any input is rendered or rejected with a report, never mangled silently."""
import re
from itertools import product

import rsmio
from core import Result, Violation
from htmltree import BadHTML, parse
from project import text_of

import tree_sitter
import tree_sitter_rsm

PROPERTY = "P12"
RULE = ("all sequences of source tokens (70 of them: words, blanks, delimiters, tags, metadata, whole constructs) up to the bound, placed in a "
        "manuscript, a theorem, a proof step, a list, a table cell and a section, before any manuscript, and cut off before its end; each rendered in both "
        "views with its log and judged against the concrete syntax tree; trivial: sequences of words and blanks")
ASSUMPTIONS = ["what could not be understood is what the tree-sitter grammar marks as ERROR or MISSING",
               "a bibtex block without a bibliography is reported as a whole, not also the errors in it"]

TOK = ("w", " ", "\n", "\n\n", "::", ":rsm:", "$", "$$\n", "`", "*", "/", "%", "#", "{", "}", ":label: x", "\\", "## S\n", "### T\n",
       ":theorem:\n", ":proof:\n", ":step:\n", ":p:\n", ":itemize:\n", ":item: ", ":span: ", ":ref:x::", ":ref:", ":cite:x::", ":cite:",
       ":url:u::", ":prev:", ":previous:2::", ":note: ", ":math: ", "{:label: x}", ":let: ", ":claim:", "  :title: T\n", "  :label: x\n",
       "  :nonum:\n", ":figure:\n  :path: p\n", ":caption: ", ":table:\n", ":tbody:\n", ":tr: a : b ::\n", ":td: ", ":toc:\n", ":appendix:\n",
       ":bibliography: ::\n", ":bibtex:\n", "@article{k,\n", ":abstract:\n", ":author:\n  :name: A\n", ":paragraph: ", "```\n", ":algorithm:\n",
       ":code: ", ":mathblock:\n", ":draft: ", ":section:\n", ":qed:", ":keywords: a, b", ":types: {t, u}", ":lang: python", ":unknown:",
       "\u00e9", "<b>", "&amp;", ":exercise:\n")
CORE = tuple(TOK.index(t) for t in ("w", "\n\n", "::", "$", "$$\n", "`", "*", "%", "{", "}", ":label: x", "## S\n", ":theorem:\n", ":proof:\n", ":step:\n",
                                    ":item: ", ":span: ", ":ref:x::", "{:label: x}", ":note: ", "  :label: x\n", ":tr: a : b ::\n", ":prev:"))
FRAMES = {
    "top": (":rsm:\n\n", "\n\n::\n"),
    "words": (":rsm:\n\nfirst\n\nmid ", " more\n\nlast\n\n::\n"),
    "thm": (":rsm:\n\n:theorem:\n\n", "\n\n::\n\n::\n"),
    "step": (":rsm:\n\n:proof:\n\n:step:\n\n", "\n\n::\n\n::\n\n::\n"),
    "list": (":rsm:\n\n:itemize:\n\n", "\n\n::\n\n::\n"),
    "cell": (":rsm:\n\n:table:\n\n:tbody:\n\n:tr: a : ", " ::\n\n::\n\n::\n\n::\n"),
    "sec": (":rsm:\n  :title: T\n\nfoo\n\n## A\n", "\n\nbar\n\n### B\n\n::\n"),
    "cut": (":rsm:\n\n:theorem:\n\nw $x$\n\n", ""),
    "raw": ("", ""),
    "cap": (":rsm:\n\n:figure:\n  :path: a.png\n\n:caption: c ", "\n\n::\n\n::\n"),
    "note": (":rsm:\n\na :note: b ", " :: c\n\n::\n"),
    "bib": (":rsm:\n\na :cite:k1::\n\n:bibliography: ::\n\n::\n\n:bibtex:\n\n@book{k1,\n title={T},\n", "\n author={A},\n}\n\n::\n"),
}
FRAMES["far"] = (":rsm:\n\n" + "w\n\n" * 120 + "v " * 70, " x\n\n## A\n\nlast\n\n::\n")
JUNK = ("", ",", " x", "?", "}", "{", "=", '"', "@", "%", "\n", "\n\n", "::", " :note: x")
LANG = tree_sitter.Language(tree_sitter_rsm.language())


def cases(tier):
    quick = tier == "quick"
    n = len(TOK)
    for f in FRAMES:
        yield (f, ())
        for i in range(n):
            for k in (3, 12) if quick else range(3, 30):
                yield (f, (i,) * k)
        for k in (1, 2):
            for seq in product(range(n), repeat=k):
                if quick and k == 2 and f not in ("top", "words", "thm", "step", "raw"):
                    continue
                yield (f, seq)
    # several places of one entry, or of several, that the grammar does not understand
    for junk in product(JUNK if not quick else JUNK[:4], repeat=4):
        yield ("entry", junk)
    for junk in product(JUNK, repeat=2):
        yield ("entry", (*junk, "", ""))
        yield ("entry", (junk[0], "", "", junk[1]))
    if quick:
        for seq in product(CORE, repeat=3):
            yield ("top", seq)
        return
    deep = ("top", "words", "thm", "step", "list", "raw")
    for f in FRAMES:
        for seq in product(range(n) if f in deep else CORE, repeat=3):
            yield (f, seq)
    for seq in product(CORE, repeat=4):
        yield ("top", seq)


def source(case):
    if case[0] == "entry":
        a, b, c, d = case[1]
        return (f":rsm:\n\na :cite:k1::\n\n:bibliography: ::\n\n::\n\n:bibtex:\n\n@book{{k1,\n  title={{T}}{a},\n  author={{A}}{b},\n  year={{1}}{c},\n}}\n\n"
                f"@article{{k2,\n  title={{U}}{d},\n  author={{B}},\n}}\n\n::\n")
    a, z = FRAMES[case[0]]
    return a + "".join(TOK[i] for i in case[1]) + z


describe = source


def problems(node, out, bibtex=False):
    """[(node, is it in a bibtex block)]"""
    if node.type == "ERROR" or node.is_missing:
        out.append((node, bibtex))
    elif node.has_error:
        for c in node.children:
            problems(c, out, bibtex or node.type == "bibtex")
    return out


def reports(record, row, col):
    """Is the record a warning about that position?"""
    if record.levelno < 30:
        return False
    if (getattr(record, "start_row", None), getattr(record, "start_col", None)) == (row, col):
        return True
    return bool(re.search(rf"\b{row}\b.*\b{col}\b", record.getMessage()))


NAMED = {"RSMApplicationError", "RSMParserError", "RSMTransformerError", "RSMTranslatorError", "RSMNodeError"}


def run(case):
    src = source(case)
    tree = tree_sitter.Parser(LANG).parse(bytes(src, "utf-8"))
    bad = problems(tree.root_node, []) if tree.root_node.has_error else []
    out = []
    seen = []
    for h in (False, True):
        view = "handrails" if h else "plain"
        try:
            html, log = rsmio.render_logged(src, h)
        except Exception as e:  # noqa: BLE001
            if type(e).__name__ in NAMED and str(e).strip():
                seen.append("rejected")
                continue
            raise
        warned = [m for lv, m in log if lv >= 30]
        errors = [m for lv, m in log if lv >= 40]
        if not html:
            seen.append("empty")
            if not errors or not any(m.strip() for m in errors):
                out.append(Violation("no-report", f"no page and no error report ({view})", src))
            continue
        try:
            root = parse(html)
        except BadHTML as e:
            out.append(Violation("malformed", f"malformed page: {e} ({view})", src))
            continue
        marks = [text_of(e) for e in root.walk() if e.has("error") or e.has("unknown")]
        seen.append(("page", len(marks), len(warned)))
        if errors:
            out.append(Violation("error-but-page", f"an error is reported, yet a page returned ({view}): {errors[0]}", src))
        if marks and not warned:
            out.append(Violation("mark-unreported", f"{marks[0]!r} is on the page but nothing was reported ({view})", src))
        text = text_of(root)
        dropped = any(r.levelno >= 30 and "bibtex" in r.getMessage() for r in log.records)  # the whole block is reported as ignored
        for node, bibtex in bad:
            if bibtex and dropped:
                continue
            (a, b), (c, d) = node.start_point, node.end_point
            if f"[CST error at ({a}, {b}) - ({c}, {d})]" not in text and not any(reports(r, a, b) for r in log.records):
                out.append(Violation("silent", f"not understood at {node.start_point} ({node.type}{' missing' if node.is_missing else ''}), "
                                               f"yet no mark and no report of it ({view})", src))
                break
    return Result(out, tuple(seen), execs=2, steps=len(case[1]), trivial=not any(case[1]) if case[0] == "entry" else all(i < 4 for i in case[1]))
