"""P18: collapsing hides exactly what was asked and can always be undone."""
import webpage
from families import BLOCKS
from webpage import EXTRA, depth, describe, forests, result, sequences  # noqa: F401

PROPERTY = "P18"
RULE = ("handrails pages of the real renderer, run by the real scripts of rsm/static in a stand-in for the browser: pages of one block and of pairs of blocks, all "
        "proofs of up to 4 (thorough 5) steps and all section trees of up to 4 (5) sections, with and without title; on each every sequence of clicks on the collapse controls that are shown and of "
        "opening a menu, clicking an entry and leaving, up to closure of the set of states (a walk over all transitions of the state graph), clicking "
        "control, icon and picture; menus left open in any combination on small pages; failing libraries and clipboard; after every click visibility, icons, captions, "
        "copied link and messages are compared with the model, and from every state the page is expanded to what it was; trivial: pages without controls")
ASSUMPTIONS = ["the stand-in implements the selectors, events, focus and display rules that the scripts use; layout is not modelled",
               "what is hidden follows from .hide and from .hr-menu-zone being closed, as in rsm.css", "MathJax, pseudocode and tooltipster are stand-ins"]
LIMIT = webpage.LIMIT

WHOLE = {"clicks": True, "menus": "whole", "undo": True}
ALL = {**WHOLE, "items": "all"}
FREE = {"clicks": True, "menus": "free", "undo": True}
OTHER = [
    {**ALL, "clipboard": "denied"}, {**ALL, "clipboard": "none"}, {**ALL, "fail": ["mathjax"]}, {**ALL, "fail": ["pseudocode"]}, {**ALL, "fail": ["mathjax", "pseudocode"]},
    {**ALL, "hash": "#some"}, {**ALL, "targets": ["svg", "zone", "icon"]}, {**ALL, "keys": False}, {**ALL, "root": ".manuscriptwrapper"},
]
SOME = ("thm", "linkthm", "linkstep", "h3", "subtext", "alg", "mb")


def case(page, config):
    return (page, tuple(sorted((k, tuple(v) if isinstance(v, list) else v) for k, v in config.items())))


def pages(tier):
    quick = tier == "quick"
    names = [*BLOCKS, *EXTRA]
    for seq in sequences(names, 1):
        for title in ("T", ""):
            yield ("blocks", seq, title)
    pairs = names if not quick else ("p", "thm", "h2", "h2u", "h3", "proof", "toc", "bib", "abs", "sketch", "linkstep", "nested")
    for seq in sequences(pairs, 2):
        if len(seq) == 2:
            yield ("blocks", seq, "T" if not quick else "")
    for n in range(1, 5 if quick else 6):
        for f in forests(n):
            if depth(f) <= 3 or not quick:
                for leaf in (False, True):
                    for lab in (False, True) if not quick or n < 4 else (True,):
                        yield ("proof", f, leaf, lab, "T" if not quick and n < 5 else "")
            if depth(f) <= 3:
                yield ("secs", f, "T")


def cases(tier):
    quick = tier == "quick"
    for p in pages(tier):
        small = p[0] == "blocks" and len(p[1]) == 1
        yield case(p, ALL if small or not quick else WHOLE)
    for b in SOME:
        p = ("blocks", (b,) if b != "h3" else ("h2", "h3"), "")
        yield case(p, {**FREE, "depth": 3 if quick else 5})
        for c in OTHER:
            yield case(p, c)


def run(c):
    return result(c[0], dict((k, list(v) if isinstance(v, tuple) else v) for k, v in c[1]))
