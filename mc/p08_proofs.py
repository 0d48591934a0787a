"""P08: proofs keep their hierarchical structure, and previous-references lead to the right step."""
from itertools import combinations, product

import rsmio
from core import Result, Violation
from docmodel import P, T, doc, emit
from families import CODE, CON, LIST, M, MB, PREV, PROOF, REF, S, STEP, THM
from p04_numbers import margins
from views import Views, whole

PROPERTY = "P08"
RULE = ("all proof trees up to the bound (every ordered forest of steps; every step's sub-steps written directly or in "
        "an explicit subproof, every leaf with or without a written justification, labelled or not); for every step of "
        "every tree every previous-reference from 1 up to one beyond the first sibling, in the statement, the "
        "justification or a nested tag, in every notation; previous-references outside of steps; proof steps with other blocks between them; steps with sub-steps and other blocks mixed in every order; every subset of a label, types and an icon on proof, steps and sub-proofs; all statements and "
        "subproofs made of up to three of ten kinds of blocks; trivial: never")
ASSUMPTIONS = ["an explicit subproof is the last thing in its step (anything after it is rejected)"]


def forests(n):
    """Ordered forests with n nodes; a tree is the forest of its children."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for first in forests(k - 1):
            for rest in forests(n - k):
                yield (first, *rest)


def paths(f, at=()):
    for i, t in enumerate(f):
        yield (*at, i)
        yield from paths(t, (*at, i))


BODY = {
    "p": P("w"), "q": P("w ", M("x"), T(" v")), "d": P("w", MB("m", ("label", "d@")), T("z")), "e": MB("n"),
    "c": P(CON("claim", "w")), "a": P(CON("assume", "w"), T(" "), CON("let", M("x"))), "l": LIST("enumerate", (T("i"),), (T("j"),)),
    "t": THM("lemma", P("in"), label="t@"), "r": PROOF(STEP(P("nested"))), "k": P("w", MB("m", ("isclaim", True))), "s": ("sketch", (P("sk"),), ()),
}


METAS = tuple(s for n in range(4) for s in combinations(("label", "types", "icon"), n))


def metas(keys, x):
    have = {"label": f"{x}-l", "types": (f"{x}t", "yy"), "icon": "star"}
    return tuple((k, have[k]) for k in keys)


def dressed(f, sm, um, k, at=()):
    """Steps with these metadata; with k, sub-proofs are written out with theirs and say something besides."""
    out = []
    for i, t in enumerate(f):
        here = (*at, i)
        x = "".join(map(str, here))
        kids = dressed(t, sm, um, k, here)
        sub = ("p", ((P(f"j{x}"),) if k or not kids else ()) + kids, metas(um, "u" + x))
        out.append(("step", (P(f"s{x}"),), sub, metas(sm, "s" + x)))
    return tuple(out)


def labels_in(keys, f, x, at=()):
    return [f"{x}{''.join(map(str, p))}-l" for p in paths(f)] if "label" in keys else []


def cases(tier):
    quick = tier == "quick"
    for n in range(1, 5 if quick else 7):
        for f in forests(n):
            ps = list(paths(f))
            inner = [p for p in ps]
            full = n <= (3 if quick else 4)
            for style in product((0, 1), repeat=len(inner)) if full else ((0,) * n, (1,) * n):
                for lab in (0, 1):
                    yield ("tree", f, style, lab)
    for n in (5, 6) if quick else (7, 8):
        for f in forests(n):
            yield ("tree", f, tuple(i % 2 for i in range(n)), 1)
    for n in range(1, 5 if quick else 6):
        for f in forests(n):
            for p in paths(f):
                for k in range(1, p[-1] + 2):
                    for form in ("prev", "previous", "text") if k <= 3 else ("previous", "text"):
                        for where in ("st", "sub", "span", "item", "thm") if n <= (3 if quick else 4) else ("st",):
                            for lab in (0, 1) if n <= 4 else (1,):
                                yield ("prev", f, p, k, form, where, lab)
    for where in ("p", "proof", "thm", "sketch", "after", "abs", "item"):
        for form in ("prev", "previous", "text"):
            for k in (1, 2):
                yield ("outside", where, k, form)
    names = tuple(BODY)
    for a in range(0, 3):
        for st in product(names, repeat=a):
            if st:
                yield ("body", st, None)
            for sub in product(names, repeat=1 if quick or a == 2 else 2):
                yield ("body", st, sub)
    if not quick:
        for st in product(names, repeat=3):
            if st:
                yield ("body", st, None)
            yield ("body", st, ("p",))
    for n in range(2, 5 if quick else 6):
        for kids in product(("step", "p", "t", "d") if n < 5 else ("step", "p", "t"), repeat=n):
            have = kids[:-1].count("step")
            if kids[-1] == "step" and have:
                for k in range(1, have + 2):
                    yield ("between", kids, k)
    # a step whose sub-steps have other blocks between and after them, and then another step
    alpha = ("step", "p", "e", "t", "l") if quick else ("step", *names)
    for n in range(1, 4 if quick else 5):
        for kids in product(alpha if n < 4 else ("step", "p", "e", "t"), repeat=n):
            for st in ("p", "d", "l"):
                for deep in (False, True):
                    yield ("mixed", st, ("step", *kids), deep)
    # labels, types and icons on the proof, on its steps and on its sub-proofs, by every subset
    for n in range(1, 4 if quick else 5):
        for f in forests(n):
            for pm, sm, um in product(METAS, repeat=3):
                for k in ((1,) if n < 3 or quick else (0, 1)):
                    yield ("metas", f, pm, sm, um, k)
    for k in (9, 10, 11, 26):
        yield ("wide", k)
        yield ("deep", k)


def steps(f, style, lab, at=(), counter=None, prev=None):
    """prev: (path, where, inline)"""
    out = []
    for i, t in enumerate(f):
        here = (*at, i)
        j = next(counter)
        inl, just = [T(f"s{'.'.join(map(str, here))}")], [T(f"j{'.'.join(map(str, here))}")]
        blocks = []
        if prev and prev[0] == here:
            w, x = prev[1], prev[2]
            if w == "st":
                inl += [T(" by "), x, T(" so")]
            elif w == "span":
                inl += [T(" by "), ("span", ("strong",), (T("b "), x), ())]
            elif w == "item":
                blocks = [LIST("itemize", (T("i "), x))]
            elif w == "thm":
                blocks = [THM("lemma", P("in ", x))]
            else:
                just += [T(" by "), x]
        kids = steps(t, style, lab, here, counter, prev)
        s = style[j]
        need = prev and prev[0] == here and prev[1] == "sub"
        if kids:
            sub = ("p", ((P(*just),) if need else ()) + kids) if s or need else kids
        else:
            sub = ("p", (P(*just),)) if s or need else None
        meta = {"label": "L" + "-".join(map(str, here))} if lab else {}
        out.append(STEP(("p", tuple(inl), ()), *blocks, sub=sub, **meta))
    return tuple(out)


def make(case):
    from itertools import count
    kind = case[0]
    if kind == "tree":
        return doc(PROOF(*steps(case[1], case[2], case[3], counter=count())), P("after"))
    if kind == "prev":
        _, f, p, k, form, where, lab = case
        x = PREV(k, "prev") if form == "prev" else PREV(k, "previous", "own" if form == "text" else "")
        return doc(PROOF(*steps(f, (0,) * 99, lab, counter=count(), prev=(p, where, x))))
    if kind == "outside":
        _, where, k, form = case
        x = PREV(k, "prev") if form == "prev" else PREV(k, "previous", "own" if form == "text" else "")
        b = P("w ", x)
        st = STEP(P("s"))
        if where == "proof":
            return doc(PROOF(st, st, st, b))
        pr = PROOF(st, st, st)
        return doc(pr, {"p": b, "after": b, "thm": THM("theorem", b), "sketch": ("sketch", (b,), ()), "abs": ("abstract", (b,), ()),
                        "item": LIST("enumerate", (T("i "), x))}[where])
    if kind == "body":
        from families import relabel
        st = [relabel(BODY[n], f"{i}") for i, n in enumerate(case[1])] or []
        sub = None if case[2] is None else ("p", tuple(relabel(BODY[n], f"s{i}") for i, n in enumerate(case[2])))
        return doc(PROOF(STEP(P("first")), STEP(*st, sub=sub, label="B"), STEP(P("last ", PREV(1)))))
    if kind == "mixed":
        from families import relabel
        _, st, kids, deep = case
        sub, n = [], 0
        for i, b in enumerate(kids):
            if b == "step":
                n += 1
                sub.append(STEP(P(f"s{i} ", *((PREV(n - 1, "previous"),) if n > 1 else ())), label=f"M{i}"))
            else:
                sub.append(relabel(BODY[b], f"m{i}"))
        step = STEP(relabel(BODY[st], "x"), sub=tuple(sub), label="B")
        if deep:
            step = STEP(P("outer"), sub=(STEP(P("x")), step, P("closing words"), STEP(P("y ", PREV(1)))), label="C")
        return doc(PROOF(STEP(P("first")), step, STEP(P("last ", PREV(1)))))
    if kind == "metas":
        _, f, pm, sm, um, k = case
        refs = (["pf-l"] if "label" in pm else []) + labels_in(sm, f, "s") + labels_in(um, f, "u")
        return doc(P("see", *(x for r in refs for x in (T(" "), REF(r)))), ("proof", dressed(f, sm, um, k), metas(pm, "pf")))
    if kind == "between":
        from families import relabel
        bs = [STEP(P(f"s{i}"), label=f"L{i}") if n == "step" else relabel(BODY[n], i) for i, n in enumerate(case[1][:-1])]
        return doc(PROOF(*bs, STEP(P("by ", PREV(case[2], "previous"), T(" so")))))
    if kind == "wide":
        k = case[1]
        return doc(PROOF(*[STEP(P("w ", *((PREV(i, "previous"),) if i else ()))) for i in range(k)]))
    f = ()
    for _ in range(case[1]):
        f = (f, ())
    return doc(PROOF(*steps(f, (0,) * 99, 1, counter=count())))


def describe(case):
    return emit(make(case))


def run(case):
    if case[0] == "outside" or case[0] == "prev" and case[3] > case[2][-1] \
            or case[0] == "between" and case[2] >= case[1].count("step"):
        src = describe(case)
        vs = []
        for h in (False, True):
            try:
                html = rsmio.render(src, h)
            except rsmio.rsm.transformer.RSMTransformerError:
                continue
            vs.append(Violation("unreported", "a previous-reference to a step that does not exist was not reported", f"{src}\n{html[:200]!r}"))
        return Result(vs, "reported", execs=2)
    v = Views(make(case))
    vs = v.compare(whole, "proof", "the proof is not as written")
    want = [(n.kind.replace("mb", "mathblock"), n.label, (f"⟨{n.full}⟩" if n.kind == "step" else f"({n.full})" if n.full else ""))
            for n in v.ref.walk() if n.kind in ("step", "mb")]
    got = margins(v.raw[True])
    if got != want:
        vs.append(Violation("margin", "step numbers in the margin are wrong", f"{v.src}\nexpected {want}\nactual   {got}"))
    return Result(vs, (whole(v.want_dom), tuple(want)), execs=2, steps=len(want))
