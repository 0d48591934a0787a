"""One document per place where an author can put a string; `w` is that string."""
from docmodel import H, P, T, doc
from families import (BIB, CITE, CODE, CON, DRAFT, FIG, LIST, M, MB, NOTE, PROOF, REF, S, STEP, TABLE, THM, URL, row)

A, Z = P("before"), P("after")
ADOI = ("author", "A"), ("title", "B"), ("journal", "J"), ("year", "2000"), ("doi", "10/1")


def bibdoc(**f):
    g = dict(ADOI, **f)
    return doc(P("see ", CITE("kk"), T(".")), ("bib",), bib=(("article", "kk", tuple(g.items())),))


TEXT = {
    "para": lambda w: doc(P(f"aa {w} bb")),
    "alone": lambda w: doc(P(w)),
    "strong": lambda w: doc(P("a ", S(w), T(" b"))),
    "emphas": lambda w: doc(P("a ", S(w, "emphas"), T(" b"))),
    "both": lambda w: doc(P("a ", S(w, "strong", "emphas"), T(" b"))),
    "nested": lambda w: doc(P("a ", ("span", ("strong",), (T("c "), S(w, "emphas"), T(" d")), ()), T(" b"))),
    "aftermath": lambda w: doc(P("a ", M("x"), T(f" {w} b"))),
    "mbafter": lambda w: doc(P(f"a {w}", MB("x"), T(f"{w} b"))),
    "item": lambda w: doc(LIST("itemize", (T(f"i {w}"),), (T("j"),))),
    "cell": lambda w: doc(TABLE((row(f"h {w}", "g"),), (row("c", f"d {w}"),), (T(f"cap {w}"),))),
    "caption": lambda w: doc(FIG((T(f"cap {w} x"),))),
    "thmbody": lambda w: doc(THM("theorem", P(f"t {w}"))),
    "step": lambda w: doc(PROOF(STEP(P(f"s {w}"), sub=("p", (P(f"w {w}"),))))),
    "sketch": lambda w: doc(("sketch", (P(f"k {w}"),), ())),
    "abstract": lambda w: doc(("abstract", (P(f"k {w}"),), ())),
    "note": lambda w: doc(P("a ", NOTE(f"n {w}"), T(" b"))),
    "draft": lambda w: doc(P("a ", DRAFT(f"n {w}"), T(" b"))),
    "con": lambda w: doc(P(CON("let", f"n {w}"), T(" b"))),
}
VERBATIM = {
    "math": lambda w: doc(P("a ", M(f"x{w}y"), T(" b"))),
    "mb": lambda w: doc(P("a ", MB(f"x{w}y"), T("b"))),
    "mb0": lambda w: doc(MB(f"x{w}y")),
    "claim": lambda w: doc(P("a ", MB(f"x{w}y", ("isclaim", True)), T("b"))),
    "code": lambda w: doc(P("a ", CODE(f"x{w}y"), T(" b"))),
    "codelang": lambda w: doc(P("a ", CODE(f"x{w}y", ("lang", "python")), T(" b"))),
    "codeblock": lambda w: doc(("codeblock", f"x{w}y", ())),
    "codeblocklang": lambda w: doc(("codeblock", f"x{w}y", (("lang", "python"),))),
    "alg": lambda w: doc(("alg", f"x{w}y", ())),
}
# block metadata values end at the line's end, inline ones at a comma or brace
META = {
    "title": lambda w: doc(A, meta=(("title", f"t {w} u"),)),
    "head2": lambda w: doc(H(2, f"t {w} u", label="hh"), A),
    "head4": lambda w: doc(H(2, "a"), H(3, "b"), H(4, f"t {w} u"), A),
    "headtoc": lambda w: doc(A, ("toc",), Z, H(2, f"t {w} u", label="hh"), A),
    "thmtitle": lambda w: doc(THM("theorem", A, title=f"t {w} u")),
    "ptitle": lambda w: doc(P("words", meta=(("title", f"t {w} u"),))),
    "reftext": lambda w: doc(THM("theorem", A, label="tt", reftext=f"r {w} s"), P("see ", REF("tt"))),
    "name": lambda w: doc(("author", (("name", f"n {w} m"), ("affiliation", f"a {w} b"), ("email", "e@x"))), A),
    "email": lambda w: doc(("author", (("name", "N"), ("email", f"e{w}@x"))), A),
    "keywords": lambda w: doc(("abstract", (A,), (("keywords", (f"k {w}", "l")), ("msc", (f"m {w}", "n")))), Z),
    "path": lambda w: doc(FIG(None, path=f"p{w}.png"), Z),
    "types": lambda w: doc(THM("theorem", A, types=(f"y{w}", "z")), Z),
    "lang": lambda w: doc(("codeblock", "x = 1", (("lang", f"q{w}"),)), Z),
    "label": lambda w: doc(THM("theorem", A, label=f"l{w}m"), P("see ", REF(f"l{w}m"), T(" end"))),
    "headlabel": lambda w: doc(A, ("toc",), Z, H(2, "t", label=f"l{w}m"), P("see ", REF(f"l{w}m"), T(" end"))),
    "spanlabel": lambda w: doc(P("a ", ("span", ("strong",), (T("b"),), (("label", f"l{w}m"),)), T(" c ")), P("see ", REF(f"l{w}m"))),
    "notelabel": lambda w: doc(P("a ", ("note", (T("b"),), (("label", f"l{w}m"),)), T(" c "))),
}
ARGS = {
    "url": lambda w: doc(P("a ", URL(f"http://x/{w}"), T(" b"))),
    "urltext": lambda w: doc(P("a ", URL("http://x/", f"t {w} u"), T(" b"))),
    "reftxt": lambda w: doc(THM("theorem", A, label="tt"), P("see ", REF("tt", f"r {w} s"), T(" b"))),
    "refbad": lambda w: doc(P("see ", REF(f"no{w}x"), T(" b"))),
    "citebad": lambda w: doc(P("see ", CITE(f"no{w}x"), T(" b"))),
    "citebad2": lambda w: doc(P("see ", CITE(f"no{w}x", "k1"), T(" b")), ("bib",), bib=BIB),
    "prevtext": lambda w: doc(PROOF(STEP(A, label="s1"), STEP(P("by ", ("prev", 1, "previous", f"r {w} s"), T(" b"))))),
}
BIBF = {
    "bauthor": lambda w: bibdoc(author=f"a {w} b"),
    "btitle": lambda w: bibdoc(title=f"a {w} b"),
    "bjournal": lambda w: bibdoc(journal=f"a {w} b"),
    "bdoi": lambda w: bibdoc(doi=f"10/{w}x"),
}
# the string at an end of what holds it
EDGE = {
    "headend": lambda w: doc(A, ("toc",), H(2, f"t{w}", label="hh"), P("x")),
    "headstart": lambda w: doc(A, ("toc",), H(2, f"{w}t", label="hh"), P("x")),
    "titleend": lambda w: doc(A, meta=(("title", f"t{w}"),)),
    "titlestart": lambda w: doc(A, meta=(("title", f"{w}t"),)),
    "thmend": lambda w: doc(THM("theorem", A, title=f"t{w}"), Z),
    "parend": lambda w: doc(P(f"t{w}"), Z),
    "parstart": lambda w: doc(P(f"{w}t"), Z),
    "spanend": lambda w: doc(P("a ", ("span", ("strong",), (T(f"t{w}"),), (("label", "q"),)), T(" b")), Z),
    "spanstart": lambda w: doc(P("a ", ("span", ("strong",), (T(f"{w}t"),), (("label", "q"),)), T(" b")), Z),
    "itemend": lambda w: doc(LIST("enumerate", (T(f"t{w}"),), (T(f"{w}t"),)), Z),
    "cellend": lambda w: doc(TABLE((row(f"t{w}", f"{w}u"),), (row("c", "d"),), (T(f"{w}t{w}"),)), Z),
    "capend": lambda w: doc(FIG((T(f"t{w}"),)), Z),
    "mathend": lambda w: doc(P(f"t{w}", M("x"), T(f"{w}u")), Z),
    "reftextend": lambda w: doc(THM("theorem", A, label="tt", reftext=f"t{w}"), P("see ", REF("tt"))),
    "reftxtend": lambda w: doc(THM("theorem", A, label="tt"), P("see ", REF("tt", f"t{w}"), T(" b"))),
    "nameend": lambda w: doc(("author", (("name", f"t{w}"),)), A),
}
ALL = {**TEXT, **EDGE, **VERBATIM, **META, **ARGS, **BIBF}
