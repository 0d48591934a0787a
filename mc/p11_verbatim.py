"""P11: math and code are passed on character for character; an escape yields the character."""
from itertools import product

import positions
from core import Result, Violation
from docmodel import Layout, emit
from project import firstdiff, text_of
from refrender import Reference
from views import neutral, page, whole

PROPERTY = "P11"
RULE = ("every verbatim place (inline and display math, claim, inline code and code blocks with and without language, algorithm) in both "
        "notations times every string up to the bound over an alphabet of markup, HTML and TeX characters and line breaks that does not "
        "contain the place's terminator; every place for text, titles and captions times every string of escapes, backslashes and words; "
        "both views, text compared character by character; trivial: strings of letters only")
ASSUMPTIONS = ["code with a language is compared without its blank lines at the ends (the highlighter drops them)",
               "a backslash right before a closing * or /, or at the end of a line, is left out: the grammar takes it for an escape of that"]

# what ends the verbatim text in (short, long) form
ENDS = {
    "math": (("$",), ("::",)), "mb": (("$$",), ("::",)), "mb0": (("$$",), ("::",)), "claim": (("$$",), ("::",)),
    "code": (("`",), ("::",)), "codelang": (("`",), ("::",)), "codeblock": (("```",), ("::",)), "codeblocklang": (("```",), ("::",)),
    "alg": (("::",), ("::",)),
}
BLOCK = ("mb", "mb0", "claim", "codeblock", "codeblocklang", "alg")
CHARS = tuple("\\$%:*/{}#`<&\"_^~,|- a\t")
SMALL = tuple("\\$%:*`{<&\n\t ")
TEXTS = ("\\:", "\\%", "\\$", "\\`", "\\*", "\\{", "\\#", "\\", "\\\\", "\\a", "a", " ", "\\}", "\\/", "|", "~", "\\n", "&", "<")
INMETA = ("ptitle", "keywords")
TIGHT = ("strong", "emphas", "nested", "item")


def strings(alpha, n, least=1):
    for k in range(least, n + 1):
        for s in product(alpha, repeat=k):
            yield "".join(s)


def fits(place, short, w):
    ends = ENDS[place][0 if short else 1]
    full = f"x{w}y"
    if any(e in full for e in ends):
        return False
    if "\n" in w and place not in BLOCK:
        return False
    return True


def cases(tier):
    quick = tier == "quick"
    for place in positions.VERBATIM:
        for short in (True, False):
            for w in strings(CHARS, 2 if quick else 3):
                if fits(place, short, w):
                    yield ("verb", place, short, w)
            for w in strings(SMALL, 3 if quick else 4, least=3 if quick else 4):
                if fits(place, short, w):
                    yield ("verb", place, short, w)
    for place in positions.TEXT:
        for w in strings(TEXTS, 2 if quick else 3):
            if ok_text(w) and not (place in TIGHT and w.endswith("\\")):
                yield ("text", place, True, w)
    for place in ("title", "head2", "head4", "headtoc", "thmtitle", "ptitle", "reftext", "name", "keywords", "urltext", "reftxt", "prevtext"):
        for w in strings(TEXTS, 2 if quick else 3):
            if ok_text(w) and "/" not in w and not (place in INMETA and set(w) & set(":{}")):
                yield ("text", place, True, w)
    for place in positions.EDGE:
        for w in strings(TEXTS, 2 if quick else 3):
            if ok_text(w) and "/" not in w and not w.endswith("\\"):
                yield ("text", place, True, w)


    # much of it
    for n in (12, 60) if quick else range(3, 100):
        for place in positions.VERBATIM:
            for short in (True, False):
                for w in ("-".join(f"l{i}" for i in range(n)), "\n".join("  " * (i % 4) + f"l{i}" for i in range(n)), *(c * n for c in CHARS)):
                    if fits(place, short, w):
                        yield ("verb", place, short, w)
        for place in (*positions.TEXT, *positions.EDGE, "title", "head2", "head4", "headtoc", "thmtitle", "reftext", "name", "urltext", "reftxt", "prevtext"):
            for t in TEXTS:
                for w in (t * n, f"{t}a" * n, f"{t} a " * n):
                    w = w.strip()
                    if w and ok_text(w) and "/" not in w and not w.endswith("\\"):
                        yield ("text", place, True, w)


def ok_text(w):
    return w.strip() == w and "  " not in w


def make(case):
    return positions.ALL[case[1]](case[3])


def source(case):
    return emit(make(case), Layout(short=case[2]))


describe = source


def asis(place, dom):
    """Text of the verbatim element."""
    cls = {"math": "math", "mb": "mathblock", "mb0": "mathblock", "claim": "mathblock", "code": "code", "codelang": "code",
           "codeblock": "codeblock", "codeblocklang": "codeblock", "alg": "algorithm"}[place]
    found = [e for e in dom.walk() if e.has(cls)]
    if len(found) != 1:
        return None
    t = text_of(found[0]).strip("\n")
    if place == "math":
        t = t.strip()
        if not (t.startswith("\\(") and t.endswith("\\)")):
            return None
        t = t[2:-2]
    if cls == "mathblock":
        t = t.strip()
        if not (t.startswith("$$\n") and t.endswith("\n$$")):
            return None
        t = t[3:-3].strip("\n")
    return t.strip("\n")


def run(case):
    kind, place, short, w = case
    src = source(case)
    if kind == "verb":
        want = f"x{w}y"
        out = []
        for h in (False, True):
            root, _ = page(src, h)
            have = asis(place, neutral(root))
            if have != want:
                out.append(Violation(f"verbatim:{place}", f"{want!r} is shown as {have!r} ({'handrails' if h else 'plain'} page)", src))
            if bad := [e for e in root.walk() if e.has("error")]:
                out.append(Violation(f"verbatim-error:{place}", f"{want!r} leads to {text_of(bad[0])!r}", src))
        return Result(out, (place, short, want), execs=2, steps=len(w), trivial=w.isalpha())
    want = whole(neutral(Reference(make(case)).dom()))
    out = []
    for h in (False, True):
        have = whole(neutral(page(src, h)[0]))
        if have != want:
            out.append(Violation(f"escape:{place}", f"{w!r} is not shown as it should ({'handrails' if h else 'plain'} page)", src + "\n" + firstdiff(want, have)))
    return Result(out, want, execs=2, steps=len(w), trivial=w.isalpha())
