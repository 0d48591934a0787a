"""P22: comments, indentation, blank lines and line breaks never change the page."""
import re
from functools import lru_cache
from itertools import combinations, product

from core import Result, Violation
from docmodel import Emitter, Layout, P, T, doc
from families import BIB, BLOCKS, CITE, CON, DRAFT, LIST, NOTE, PARTS, PROOF, REF, STEP, THM, URL, build, para, paras, sequences
from p20_blocks import HOSTS, host
from project import firstdiff
from views import neutral, page, whole

PROPERTY = "P22"
RULE = ("documents are all sequences of block templates up to the bound and every paragraph of parts in every host; an edit is a blank around an argument of a reference or citation, a "
        "comment line before a line, a comment at a line's end, one more blank line, the indentation of one line, or a line break in "
        "place of a blank of the text; every single edit at every place, every pair of edits on short documents, all edits of "
        "one kind at once, Windows line ends, and a lattice of whole-file layouts; both views compared with the unedited page; trivial: no edit")
ASSUMPTIONS = ["edits leave verbatim blocks (math, code, algorithm, bibtex) and headings' own lines alone",
               "a % after a path or scale belongs to the value, as in a%20b.png"]
MARK = "\x01"
# a line break in running text, the next line indented as the paragraph, from where the line ends, one further, or not at all;
# a comment before the break, and a line of comment between
SPLITS = ("split", "align", "align1", "flush", "csplit", "cline")
# within :cite:, :ref: and :url: after the tag, and around the comma of a citation; a blank after that of the others belongs to the text
GAP = re.compile(r"(?<=:cite:)(?=\S)|(?<=:ref:)(?=\S)|(?<=:url:)(?=\S)|(?<=k\d),(?=k\d)")
GAPS = {"": (" ", "  "), ",": (", ", " ,  ")}


def marked(x):
    """Blanks of running text become marks, each of which may be a blank or a line break."""
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "t":
            return ("t", x[1].replace(" ", MARK))
        return tuple(marked(y) for y in x)
    return x


@lru_cache(maxsize=64)
def lines_of(d, lay=None):
    em = Emitter(lay or Layout(indent=2))
    text = em.doc(marked(d)).rstrip("\n")
    # a mark at a paragraph's end is not text
    text = re.sub(f"{MARK}+$", "", text, flags=re.M)
    lines = text.split("\n")
    frozen = set()
    until = None
    for i, line in enumerate(lines):
        s = line.strip()
        if until:
            frozen.add(i)
            if s == until:
                until = None
            continue
        if s in ("$$", "```", ":codeblock:", ":algorithm:", ":bibtex:", ":mathblock:"):
            until = s if s in ("$$", "```") else "::"
            frozen.add(i)
    return tuple(lines), frozenset(frozen)


def places(d):
    lines, frozen = lines_of(d)
    out = []
    n = 0
    for i, line in enumerate(lines):
        s = line.strip()
        marks = line.count(MARK)
        for k in range(marks):
            out += [(x, n + k) for x in SPLITS]
        n += marks
        first = i not in frozen or i - 1 not in frozen
        if first:
            out.append(("own", i))
            out.append(("own0", i))
        if i in frozen:
            continue
        for k in range(len(GAP.findall(line))):
            out += [("gap", i, k), ("gap2", i, k)]
        if not s:
            out.append(("blank", i))
            continue
        if not s.startswith("#"):
            if not s.startswith((":path:", ":scale:")):
                out.append(("end", i))
            out.append(("indent", i))
            out.append(("tab", i))
    return out


def write(d, edits):
    lines, _ = lines_of(d)
    edits = set(edits)
    out = []
    n = 0
    for i, line in enumerate(lines):
        pad = line[:len(line) - len(line.lstrip())]
        if ("own", i) in edits:
            out.append(pad + "% a remark: nobody *should see")
        if ("own0", i) in edits:
            out.append("%remark")
        if ("blank", i) in edits:
            out.append("")
        text = ""
        gaps = iter(range(99))

        def gap(m):
            k = next(gaps)
            return m[0] if ("gap", i, k) not in edits and ("gap2", i, k) not in edits else GAPS[m[0]][("gap2", i, k) in edits]
        if i not in lines_of(d)[1]:
            line = GAP.sub(gap, line)
        for c in line:
            if c == MARK:
                how = next((x for x in SPLITS if (x, n) in edits), None)
                at = len(text) - text.rfind("\n") - 1
                if how in ("csplit", "cline"):
                    text += (" % hm :x: {" if how == "csplit" else "\n% :y: } hm")
                text += " " if how is None else "\n" + {"split": pad, "align": " " * at, "align1": " " * (at + 1), "flush": "", "csplit": pad, "cline": pad}[how]
                n += 1
            else:
                text += c
        if ("end", i) in edits:
            text += " % hm :x: {"
        if ("indent", i) in edits:
            text = "   " + text
        if ("tab", i) in edits:
            text = "\t" + text
        out.append(text)
    return "\n".join(out) + "\n"


KINDS = ("gap", "gap2", *SPLITS, "own", "own0", "blank", "end", "indent", "tab")
WHOLE = tuple(product((0, 1, 2, 4), (False, True), (1, 2, 3), (False, True), ("", "\n", "\n\n\n"), ("", "\n", "\n\n", "% x\n")))


def bases(tier):
    for seq in sequences(BLOCKS, 1 if tier == "quick" else 2, least=1):
        yield ("seq", seq)
    for w in HOSTS:
        for s in ("t", "s", "m", "n", "tB", "Bt", "BtC", "sts") if w != "top" else (*paras(2), *PARTS, "tst", "tmt", "tsmn"):
            yield ("par", w, "".join(s))
    yield ("long",)
    yield ("args",)
    for x, y in product(WORDS, repeat=2):
        yield ("pair", x, y)


# inline elements with nothing but a blank between them
WORDS = {"span": ("span", ("strong",), (T("s z"),), ()), "math": ("math", "x", ()), "code": ("code", "c", ()), "note": NOTE("n z"), "con": CON("let", T("x z")), "draft": DRAFT("d z"),
         "ref": REF("th"), "own": REF("th", "own z"), "url": URL("http://x/"), "cite": CITE("k2"), "claim": CON("claim", T("q")), "prev": ("prev", 1, "prev", None)}


def make(b):
    if b[0] == "pair":
        x, y = WORDS[b[1]], WORDS[b[2]]
        return doc(THM("theorem", P("x"), label="th"), PROOF(STEP(P("one")), STEP(P("w ", x, T(" "), y, T(" v ")), P("u ", y, T(" "), x))), ("bib",), bib=BIB)
    if b[0] == "seq":
        return build(b[1], meta=(("title", "Ti tle"), ("label", "man")))
    if b[0] == "par":
        return doc(*host(b[1], para(b[2])))
    if b[0] == "args":
        return doc(P("see ", CITE("k1", "k2"), T(" and "), CITE("k2"), T(" or "), REF("th"), T(" or "), REF("th", "own text"), T(" or "), URL("http://x/"), T(" or "), URL("http://x/", "my page")),
                   THM("theorem", P("x"), label="th", types=("ya", "yb")), LIST("itemize", (REF("th"), T(" i "), CITE("k2", "k1"))), ("bib",), bib=BIB)
    return doc(P("a b c d e f"), P("g h"))


def cases(tier):
    for b in bases(tier):
        ps = places(make(b))
        yield (b, ())
        yield (b, ("crlf",))
        if b[0] == "pair" and tier == "quick":
            ps = [p for p in ps if p[0] in SPLITS]
        for p in ps:
            yield (b, (p,))
        for k in KINDS:
            yield (b, tuple(p for p in ps if p[0] == k))
        yield (b, tuple(p for p in ps if p[0] in ("split", "end", "own")))
        yield (b, tuple(p for p in ps if p[0] in ("align", "end")))
        if b[0] == "pair" and tier == "quick":
            continue
        ps = [p for p in ps if p[0] not in SPLITS[1:]]
        if len(ps) <= (28 if tier == "quick" else 90 if b[0] != "seq" or len(b[1]) < 2 else 0):
            for pq in combinations(ps, 2):
                yield (b, pq)
        else:
            sp = [p for p in ps if p[0] in ("split", "end", "own0")]
            for p, q in zip(sp, sp[1:]):
                yield (b, (p, q))
    for b in [("seq", s) for s in sequences(BLOCKS, 1 if tier == "quick" else 2, least=1)]:
        if tier == "quick" or len(b[1]) == 1:
            for i, w in enumerate(WHOLE):
                if tier != "quick" or i % 3 == 0 and w[2] < 3 or i % 96 == 1:
                    yield (b, ("whole",) + w)
        else:
            yield (b, ("whole", 4, True, 2, True, "\n", "\n"))


def source(case):
    b, e = case
    d = make(b)
    if e and e[0] == "crlf":
        return write(d, ()).replace("\n", "\r\n")
    if e and e[0] == "whole":
        _, ind, tab, blank, com, head, tail = e
        return head + Emitter(Layout(indent=ind, tab=tab, blank=blank, comments=com)).doc(d).rstrip("\n") + tail
    return write(d, e)


describe = source


@lru_cache(maxsize=64)
def unedited(b):
    src = write(make(b), ())
    return src, [whole(neutral(page(src, h)[0])) for h in (False, True)]


def without_cr(x):
    """Code keeps its line ends, which HTML reads as plain ones."""
    return x.replace("\r\n", "\n") if isinstance(x, str) else type(x)(without_cr(y) for y in x) if isinstance(x, (tuple, list)) else x


def run(case):
    src = source(case)
    base, want = unedited(case[0])
    out = []
    for h, w in zip((False, True), want):
        have = whole(neutral(page(src, h)[0]))
        if case[1] == ("crlf",):
            have = without_cr(have)
        if have != w:
            kinds = "+".join(sorted({e[0] for e in case[1]})) if case[1] and case[1][0] not in ("whole", "crlf") else "".join(case[1][:1])
            out.append(Violation(f"layout:{kinds}", f"the page depends on the layout ({'handrails' if h else 'plain'} page)",
                                 src + "\ninstead of\n" + base + "\n" + firstdiff(w, have)))
    return Result(out, want[0], execs=2, steps=len(case[1]), trivial=src == base)
