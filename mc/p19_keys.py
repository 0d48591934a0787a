"""P19: keyboard navigation moves the focus predictably and acts like the mouse."""
import webpage
from families import BLOCKS
from p18_collapse import case
from webpage import EXTRA, depth, describe, forests, result, sequences  # noqa: F401

PROPERTY = "P19"
RULE = ("the pages of P18: on each every sequence, up to closure of the set of states or the depth given, of the navigation keys with collapse and collapse all, by key and by "
        "click; of the menu keys with navigation; and of all keys; from no focus on; after every key the focus, what is shown, icons, "
        "active menu entries, copied link, tooltips and messages are compared with the model of the keys, whose collapsing and menu transitions are those of P18's clicks; "
        "trivial: pages without handrail controls")
ASSUMPTIONS = ["the stand-in implements the selectors, events, focus and display rules that the scripts use; layout is not modelled, so scrolling is not judged",
               "what is hidden cannot take the focus, as in a browser", "j and k may pass over what is shown inside of something collapsed",
               "h and l do nothing on a heading that has no section beside it"]
LIMIT = webpage.LIMIT

NAV = {"clicks": True, "keyset": ["j", "k", "h", "l", "H", ",", ";"]}
KEYS = {"keyset": ["j", "k", "h", "l", "H", ",", ";", "."]}
MENU = {"keyset": ["j", "k", ".", "ArrowUp", "ArrowDown", "Enter", ","]}
EVERY = {"clicks": True, "menus": "free", "keyset": ["j", "k", "h", "l", "H", ",", ";", ".", "i", "z", "ArrowUp", "ArrowDown", "Enter", "x", "Escape"]}


# the menu by mouse and keys at once, on a page with a query in its address
MIX = {"menus": "free", "keyset": [".", "ArrowDown", "Enter", "j"], "search": "?v=2&w=a"}


def pages(tier):
    quick = tier == "quick"
    names = [*BLOCKS, *EXTRA]
    yield ("empty", "T")
    yield ("empty", "")
    for seq in sequences(names, 1):
        for title in ("T", "") if not quick else ("T",):
            yield ("blocks", seq, title)
    pairs = ("p", "thm", "h2", "h3", "proof", "toc", "bib", "cite", "abs", "linkthm", "linkstep", "nested")
    for seq in sequences(pairs, 2):
        if len(seq) == 2 and (not quick or seq[0] in ("h2", "p", "thm", "toc", "bib")):
            yield ("blocks", seq, "")
    for n in range(1, 4 if quick else 5):
        for f in forests(n):
            for leaf in (False, True):
                yield ("proof", f, leaf, True, "")
            if depth(f) <= 3:
                yield ("secs", f, "T")


def cases(tier):
    quick = tier == "quick"
    for p in pages(tier):
        two = p[0] != "blocks" or len(p[1]) > 1
        yield case(p, {**NAV, "depth": (5 if two else 7) if quick else 12, "max": 150 if quick else 1500})
        yield case(p, {**MENU, "depth": 4 if quick else 7, "max": 60 if quick else 600})
        if not two or p[0] == "proof" and not quick:
            yield case(p, {**MIX, "clicks": True, "depth": 5 if quick else 8, "max": 120 if quick else 800})
        if p[0] == "blocks":
            yield case(p, {**EVERY, "depth": 3 if quick else 12, "max": 100 if quick else 600, "plain": True})
        if not quick or not two:
            yield case(p, {**EVERY, "depth": 2 if quick else 4, "max": 60 if quick else 600})
            yield case(p, {**EVERY, "depth": 2 if quick else 4, "max": 60 if quick else 400, "root": ".manuscriptwrapper"})


def run(c):
    return result(c[0], dict((k, list(v) if isinstance(v, tuple) else v) for k, v in c[1]))
