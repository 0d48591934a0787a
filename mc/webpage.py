"""Exploring the states of a page in the browser stand-in (mc/ui)."""
import json
import os
import subprocess
from itertools import product

import rsm
from core import HERE, Result, Violation
from docmodel import P, T, emit
from families import BIB, BLOCKS, H, PROOF, REF, STEP, THM, legal, relabel

STATIC = os.path.join(os.path.dirname(os.path.abspath(rsm.__file__)), "static")
LIMIT = 600


def doc(*blocks, title="T"):
    return ("doc", (("title", title),) if title else (), blocks, BIB if "bib" in repr(blocks) or "cite" in repr(blocks) else ())


def forests(n):
    """Ordered forests of n nodes, as tuples of tuples."""
    if n == 0:
        yield ()
        return
    for k in range(n):
        for kids in forests(k):
            for rest in forests(n - 1 - k):
                yield (kids, *rest)


def sections(f, level=2, at=""):
    out = []
    for i, kids in enumerate(f):
        here = f"{at}{i}"
        out += [H(level, "S" + here, label="s" + here), P("p" + here), *sections(kids, level + 1, here)]
    return out


def depth(f):
    return 1 + max(map(depth, f)) if f else 0


def proof(f, leaf, lab, at=""):
    """leaf: which kind of subproof a step without steps below has."""
    out = []
    for i, kids in enumerate(f):
        here = f"{at}{i}"
        sub = proof(kids, leaf, lab, here) if kids else ("p", (P("why" + here),)) if leaf else None
        out.append(STEP(P("st" + here), sub=sub, **({"label": "l" + here} if lab else {})))
    return tuple(out)


EXTRA = {
    "linkstep": PROOF(STEP(P("a ", REF("t1")), sub=(STEP(P("b ", REF("t1")), sub=("p", (P("c ", REF("t1")),))),)), label="pf"),
    "linkthm": THM("theorem", P("x ", REF("t1")), THM("lemma", P("y"), title="In"), label="t1", title="Name"),
    "nested": THM("theorem", PROOF(STEP(P("z"), sub=(STEP(P("w"), sub=("p", (P("v"),))),))), label="th"),
    "subtext": PROOF(STEP(P("m"), P("n"), sub=("p", (P("a1"), P("a2"), THM("lemma", P("inner")))))),
}


def page(name):
    kind = name[0]
    if kind == "blocks":
        allb = {**BLOCKS, **EXTRA}
        return doc(*(relabel(allb[b], i) for i, b in enumerate(name[1])), title=name[2])
    if kind == "proof":
        return doc(PROOF(*proof(name[1], name[2], name[3]), **({"label": "pf"} if name[3] else {})), title=name[4])
    if kind == "empty":
        return doc(title=name[1])
    if kind == "secs":
        return doc(P("first"), *sections(name[1]), title=name[2])
    raise ValueError(name)


def html(name, handrails=True):
    return rsm.render(source=emit(page(name)), handrails=handrails, loglevel=50)


def node(pages):
    """The explorer's report on each page."""
    job = {"static": STATIC, "pages": pages}
    # killed with its parent's alarm, so that nothing is left running
    r = subprocess.run(["node", "--experimental-vm-modules", "--no-warnings", "--max-old-space-size=3000", os.path.join(HERE, "ui", "explore.mjs")],
                       input=json.dumps(job), capture_output=True, text=True, timeout=LIMIT - 20)
    lines = r.stdout.splitlines()
    if lines and lines[-1].startswith('{"hang"') and len(lines) <= len(pages):
        done = [json.loads(x) for x in lines]
        after = done[-1]["hang"]
        done[-1] = dict(states=1, transitions=0, controls=1, closed=False, moves=0, opened=0, cut=True,
                        bad=[dict(key="hang", what=f"the page does not answer any more after {after}", path=[], n=1)])
        return done + (node(pages[len(done):]) if len(done) < len(pages) else [])
    if r.returncode or len(lines) != len(pages):
        raise RuntimeError(f"explorer: {r.returncode} {r.stderr[-800:]}")
    return [json.loads(x) for x in lines]


def explore(name, config):
    return node([{"html": html(name, not config.get("plain")), "config": config}])[0]


TOTAL = {"states": 0}


def result(name, config):
    res = explore(name, config)
    bad = [Violation(b["key"], b["what"], f"after {json.dumps(b['path'])}; {b['n']} transitions") for b in res["bad"]]
    return Result(bad, (res["states"], res["closed"], len(bad)), execs=res["transitions"] + 1, steps=res["transitions"], trivial=not res["controls"])


def describe(case):
    return f"{case[1:]}\n" + emit(page(case[0]))


def sequences(names, n):
    for k in range(1, n + 1):
        for seq in product(names, repeat=k):
            if legal(seq):
                yield seq
