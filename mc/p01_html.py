"""P01: every page is well-formed HTML and nothing the author wrote is taken for markup."""
from itertools import product

import positions
from core import Result, Violation
from docmodel import emit
from families import BLOCKS, build, copies, twins, para, paras, relabel, sequences
from docmodel import doc
from htmltree import El
from p20_blocks import HOSTS, NESTABLE, host
from views import Views, page, whole

PROPERTY = "P01"
RULE = ("(a) all sequences of block templates and all nestings of two hosts, and all paragraphs of text, inline and display parts, in both views, with and without the "
        "embedded source, read by a strict HTML reader that recovers from nothing; (b) every place an author can put "
        "text times every string up to the bound over an alphabet of HTML metacharacters, the page compared whole with "
        "the reference renderer's; trivial: the empty document")
ASSUMPTIONS = ["the strict reader in mc/htmltree.py follows the HTML standard's tokenisation for the constructs rsm emits"]

CHARS = ("<", ">", "&", '"', "'", ";", "a")
EXTRA = ("<b>", "<!--", "-->", "&amp;", "&lt;", "&lt", "<b x", "<a b=c>", '">x', '"><b>', "<?p", "<!d", "&amp;lt;",
         "a<b>c", "a</b", "\" onload=\"y", "' x='", "<script>", "<a class=\"bibitem-doi\">")
VERB = ("</span>", "</div>", "</p>", "</code>", "<br />", "</pre>")
PHRASING = {"p", "span", "em", "strong", "code", "pre", "sup", "h1", "h2", "h3", "h4"}
OF = {"ul": {"li"}, "ol": {"li"}, "table": {"caption", "thead", "tbody"}, "thead": {"tr"}, "tbody": {"tr"}, "tr": {"td"}}
IN = {"li": {"ul", "ol"}, "tr": {"thead", "tbody"}, "td": {"tr"}, "thead": {"table"}, "tbody": {"table"},
      "caption": {"table"}, "figcaption": {"figure"}}
NOBLANK = {"url", "types", "label", "headlabel", "spanlabel", "notelabel", "refbad", "citebad", "citebad2", "path", "email", "bdoi"}
FLOW = {"div", "p", "section", "ul", "ol", "table", "figure", "h1", "h2", "h3", "h4", "pre", "body"}


def content_model(root, src):
    """Elements that a browser would move or close because of where they are."""
    if [k.tag for k in root.els] != ["body"]:
        raise Violation("root", f"the page is not one body: {root.els}", src)
    for e in root.walk():
        if e.tag in PHRASING:
            bad = [x for x in e.walk() if x is not e and x.tag in FLOW]
            if bad:
                raise Violation(f"block-in-{e.tag}", f"<{bad[0].tag} class={bad[0].attrs.get('class')}> inside <{e.tag}>", src)
        if e.tag in OF:
            bad = [x for x in e.kids if isinstance(x, El) and x.tag not in OF[e.tag] or isinstance(x, str) and x.strip()]
            if bad:
                raise Violation(f"child-of-{e.tag}", f"{bad[0]!r} directly inside <{e.tag}>", src)
        if e.tag in IN and e.parent.tag not in IN[e.tag]:
            raise Violation(f"stray-{e.tag}", f"<{e.tag}> directly inside <{e.parent.tag}>", src)
        if e.tag == "a" and any(x.tag == "a" for x in e.walk() if x is not e):
            raise Violation("link-in-link", "a link inside of a link", src)


def strings(tier):
    n = 2 if tier == "quick" else 4
    for k in range(1, n + 1):
        for s in product(CHARS, repeat=k):
            yield "".join(s)


def cases(tier):
    quick = tier == "quick"
    for seq in sequences(BLOCKS, 2 if quick else 3):
        yield ("seq", seq)
    for seq in copies(tier):
        yield ("seq", seq)
    for seq in twins(tier):
        yield ("twins", seq)
    for w in HOSTS:
        for w2 in HOSTS:
            for b in NESTABLE:
                if w2 not in ("top", "sec"):
                    yield ("nest", w, w2, b)
    for seq in paras(3 if quick else 5, "BC" if quick else "BNC", "tsn" if quick else "tm"):
        yield ("par", "top", seq)
    for w in HOSTS[1:]:
        for seq in paras(3, "BC", "t"):
            yield ("par", w, seq)
    for name in positions.ALL:
        for s in EXTRA:
            if "/" in s and name not in positions.VERBATIM:
                continue  # a slash is emphasis there
            if " " in s and name in NOBLANK:
                continue
            yield ("pos", name, s)
        if name in positions.VERBATIM:
            for s in VERB:
                yield ("pos", name, s)
        for s in strings(tier):
            if s.strip() and (not quick or len(s) < 2 or s[0] in "<&\"'"):
                yield ("pos", name, s)


def make(case):
    if case[0] == "twins":
        return build(case[1], alike=True)
    if case[0] == "seq":
        return build(case[1])
    if case[0] == "nest":
        inner = host(case[2], relabel(BLOCKS[case[3]], 0))
        return doc(*[x for b in inner for x in host(case[1], b)])
    if case[0] == "par":
        return doc(*host(case[1], para(case[2])))
    return positions.ALL[case[1]](case[2])


def describe(case):
    return emit(make(case))


def run(case):
    d = make(case)
    if case[0] == "pos":
        v = Views(d)
        for r in v.raw.values():
            content_model(r, v.src)
        vs = v.compare(whole, f"escape:{case[1]}", f"text {case[2]!r} in place {case[1]} is not shown as written")
        return Result(vs, (case[1], whole(v.want_dom)), execs=2, steps=len(case[2]))
    src = emit(d)
    out = []
    execs = 0
    for h, add in ((False, False), (True, False), (True, True)):
        root, html = page(src, h, add)
        execs += 1
        content_model(root, src)
        box = root.find(lambda e: e.has("rsm-source"))
        if add:
            if box is None or box.text() != src:
                raise Violation("source", "the embedded source is not the source", src)
        elif box is not None:
            raise Violation("source", "source embedded although not asked for", src)
        out.append(len(html))
    return Result([], (case, tuple(out)), execs=execs, steps=len(d[2]), trivial=not d[2])
