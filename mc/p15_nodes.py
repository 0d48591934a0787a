"""P15: the node tree behaves as an ordered tree under every edit sequence."""
from itertools import combinations, product

from rsm import nodes
from core import Result, Violation

PROPERTY = "P15"
RULE = ("states are all ordered forests over a set of nodes, found by breadth-first search over every edit (append, prepend, replace_self with one node, "
        "several or none, remove, remove_self, clear, with legal and illegal arguments); in each state, reached again on real nodes, every edit is "
        "executed and every query of every node compared with the model; also all edit sequences up to a depth without merging states, trees with many children or generations, and edits while a "
        "traversal is under way; trivial: none")
ASSUMPTIONS = ["an edit is illegal when it would give a node two parents, list it twice, make it its own descendant, or break possible_parents",
               "the state reached by different histories is the same in the model; the sequences without merging check that for the real nodes"]

UNIVERSES = {
    "inline": ("Paragraph", "Span", "Text", "Text"),
    "sections": ("Manuscript", "Section", "Section", "Paragraph"),
    "mixed": ("Manuscript", "Subsection", "Section", "Theorem"),
    "proof": ("Proof", "Step", "Step", "Subproof"),
    "steps": ("Theorem", "Proof", "Step", "Paragraph"),
    "figure": ("Figure", "Caption", "Table", "Text"),
    "lists": ("Itemize", "Item", "Item", "Text"),
    "sub": ("Theorem", "Lemma", "Text", "Error"),
}
DEEP = {
    "inline5": ("Paragraph", "Span", "Text", "Text", "Span"),
    "sections5": ("Manuscript", "Section", "Section", "Subsection", "Paragraph"),
    "proof5": ("Proof", "Step", "Step", "Subproof", "Paragraph"),
    "lists5": ("Itemize", "Item", "Item", "Enumerate", "Text"),
}
ALL = {**UNIVERSES, **DEEP}


def cls(name):
    return getattr(nodes, name)


# --- the model ---------------------------------------------------------------------------
# A state is a tuple: for each node the tuple of its children.

def parent_of(state, i):
    for p, kids in enumerate(state):
        if i in kids:
            return p
    return None


def above(state, i):
    """i and its ancestors."""
    out = []
    while i is not None:
        out.append(i)
        i = parent_of(state, i)
    return out


def may(names, p, c):
    allowed = cls(names[c]).possible_parents
    return not allowed or cls(names[p]) in allowed


def holds(names, i):
    return issubclass(cls(names[i]), nodes.NodeWithChildren)


def fits(names, state, p, new, leaving=None):
    if len(set(new)) != len(new) or None in new:
        return False
    up = above(state, p)
    return all((parent_of(state, c) is None or c == leaving) and c not in up and may(names, p, c) for c in new)


def with_kids(state, p, kids):
    s = list(state)
    s[p] = tuple(kids)
    return tuple(s)


def step(names, state, op):
    """The next state, or None when the edit must be rejected."""
    kind, x = op[0], op[1]
    if kind in ("append", "appends", "prepend", "prepends"):
        new = op[2] if kind.endswith("s") else (op[2],)
        if not fits(names, state, x, new):
            return None
        return with_kids(state, x, state[x] + new if kind.startswith("append") else new + state[x])
    if kind == "remove":
        return with_kids(state, x, [c for c in state[x] if c != op[2]]) if op[2] in state[x] else None
    if kind == "clear":
        return with_kids(state, x, ())
    if kind == "remove_self":
        p = parent_of(state, x)
        return state if p is None else with_kids(state, p, [c for c in state[p] if c != x])
    if kind in ("replace", "replaces"):
        p = parent_of(state, x)
        new = op[2] if kind == "replaces" else (op[2],)
        if p is None or not fits(names, state, p, new, leaving=x):
            return None
        k = state[p].index(x)
        return with_kids(state, p, state[p][:k] + tuple(new) + state[p][k + 1:])
    raise AssertionError(kind)


def edits(names, full=True):
    n = len(names)
    for x in range(n):
        yield ("remove_self", x)
        if holds(names, x):
            yield ("clear", x)
            for y in range(n):
                for k in ("append", "prepend", "remove"):
                    yield (k, x, y)
            for k in ("append", "prepend"):
                yield (k, x, None)  # not a node
        for y in range(n):
            yield ("replace", x, y)
        if full:
            yield ("replaces", x, ())
            for a, b in product(range(n), repeat=2):
                yield ("replaces", x, (a, b))
                if holds(names, x):
                    yield ("appends", x, (a, b))
                    yield ("prepends", x, (a, b))
            if holds(names, x):
                for a in range(n):
                    yield ("appends", x, (a, None))
                    yield ("prepends", x, (a, None))


def traversal(state, i):
    out = [i]
    for c in state[i]:
        out += traversal(state, c)
    return out


# --- the real nodes ----------------------------------------------------------------------

def make(names):
    out = []
    for i, n in enumerate(names):
        node = cls(n)()
        node.nodeid = i
        out.append(node)
    return out


def apply(real, op):
    """Executes the edit; the exception if it is rejected."""
    x = real[op[1]]
    arg = None
    if len(op) > 2:
        pick = lambda j: object() if j is None else real[j]  # noqa: E731
        arg = [pick(j) for j in op[2]] if isinstance(op[2], tuple) else pick(op[2])
    try:
        if op[0].startswith("append"):
            if x.append(arg) is not x:
                raise Violation("chain", "append does not return its node")
        elif op[0].startswith("prepend"):
            if x.prepend(arg) is not x:
                raise Violation("chain", "prepend does not return its node")
        elif op[0].startswith("replace"):
            x.replace_self(arg)
        elif op[0] == "remove":
            x.remove(arg)
        elif op[0] == "clear":
            x.clear()
        else:
            x.remove_self()
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        return e
    return None


def shape(real):
    """The state that children report, and what is wrong with parents."""
    index = {id(n): i for i, n in enumerate(real)}
    return tuple(tuple(index.get(id(c), -1) for c in n.children) for n in real)


def check_structure(names, real, want, what):
    got = shape(real)
    if got != want:
        raise Violation("children", f"{what}: children are {show(names, got)}, not {show(names, want)}")
    for i, n in enumerate(real):
        p = parent_of(want, i)
        if (n.parent is not None) if p is None else (n.parent is not real[p]):
            raise Violation("parent", f"{what}: the parent of {label(names, i)} is {n.parent!r}, not {'None' if p is None else label(names, p)}")


def ask(names, real, want, what):
    """Every query of every node."""
    def same(got, exp, q):
        if (got is not None) if exp is None else (got is not real[exp]):
            raise Violation("query", f"{what}: {q} is {got!r}, not {None if exp is None else label(names, exp)}")

    n = len(names)
    kinds = [cls(k) for k in sorted(set(names))]
    sup = [k for k in (nodes.Heading, nodes.NodeWithChildren, nodes.Node) if k not in kinds]
    isa = lambda j, k: issubclass(cls(names[j]), k)  # noqa: E731
    for i in range(n):
        me = real[i]
        p = parent_of(want, i)
        sibs = want[p] if p is not None else (i,)
        k = sibs.index(i)
        before, after = sibs[:k][::-1], sibs[k + 1:]
        same(me.prev_sibling(), before[0] if before else None, f"{label(names, i)}.prev_sibling()")
        same(me.next_sibling(), after[0] if after else None, f"{label(names, i)}.next_sibling()")
        own = cls(names[i])
        same(me.prev_sibling("self"), next((j for j in before if isa(j, own)), None), f"{label(names, i)}.prev_sibling('self')")
        same(me.next_sibling("self"), next((j for j in after if isa(j, own)), None), f"{label(names, i)}.next_sibling('self')")
        up = above(want, i)[1:]
        kids = want[i]
        down = traversal(want, i)
        for c in kinds + sup:
            same(me.prev_sibling(c), next((j for j in before if isa(j, c)), None), f"{label(names, i)}.prev_sibling({c.__name__})")
            same(me.next_sibling(c), next((j for j in after if isa(j, c)), None), f"{label(names, i)}.next_sibling({c.__name__})")
            same(me.first_ancestor_of_type(c), next((j for j in up if cls(names[j]) is c), None), f"{label(names, i)}.first_ancestor_of_type({c.__name__})")
            first = next(((j, x) for x, j in enumerate(kids) if isa(j, c)), (None, None))
            last = next(((j, x) for x, j in reversed(list(enumerate(kids))) if isa(j, c)), (None, None))
            for q, exp in (("first_of_type", first), ("last_of_type", last)):
                same(getattr(me, q)(c), exp[0], f"{label(names, i)}.{q}({c.__name__})")
                got = getattr(me, q)(c, return_idx=True)
                same(got[0], exp[0], f"{label(names, i)}.{q}({c.__name__}, return_idx=True)[0]")
                if got[1] != exp[1]:
                    raise Violation("query", f"{what}: {label(names, i)}.{q}({c.__name__}, return_idx=True) has index {got[1]}, not {exp[1]}")
            got = [x.nodeid for x in me.traverse(nodeclass=c)]
            exp = [j for j in down if isa(j, c)]
            if got != exp:
                raise Violation("traverse", f"{what}: {label(names, i)}.traverse(nodeclass={c.__name__}) gives {got}, not {exp}")
        pair = tuple(kinds[:2])
        same(me.first_ancestor_of_type(pair), next((j for j in up if cls(names[j]) in pair), None), f"{label(names, i)}.first_ancestor_of_type({pair})")
        if [x.nodeid for x in me.traverse()] != down:
            raise Violation("traverse", f"{what}: {label(names, i)}.traverse() gives {[x.nodeid for x in me.traverse()]}, not {down}")
        for j in range(n):
            same(me.get_child_by_id(j), j if j in down else None, f"{label(names, i)}.get_child_by_id({j})")
        got = [x.nodeid for x in me.traverse(condition=lambda x: x.nodeid % 2)]
        if got != [j for j in down if j % 2]:
            raise Violation("traverse", f"{what}: {label(names, i)}.traverse(condition) gives {got}")
        for j in range(n):
            same(me.get_child_by_id(j), j if j in down else None, f"{label(names, i)}.get_child_by_id({j})")
        if p is None and me.sexp() != sexp(names, want, i):
            raise Violation("sexp", f"{what}: {label(names, i)}.sexp() is\n{me.sexp()}")


def sexp(names, state, i, depth=0):
    inner = "".join("\n" + sexp(names, state, c, depth + 1) for c in state[i])
    return "  " * depth + f"({names[i]}{inner})"


def label(names, i):
    return f"{names[i]}#{i}"


def show(names, state):
    return {label(names, i): [label(names, c) if c >= 0 else "?" for c in kids] for i, kids in enumerate(state) if kids}


def tell(names, ops):
    out = []
    for op in ops:
        arg = ""
        if len(op) > 2:
            w = lambda j: "object()" if j is None else label(names, j)  # noqa: E731
            arg = "[" + ", ".join(map(w, op[2])) + "]" if isinstance(op[2], tuple) else w(op[2])
        name = {"replace": "replace_self", "replaces": "replace_self", "appends": "append", "prepends": "prepend"}.get(op[0], op[0])
        out.append(f"{label(names, op[1])}.{name}({arg})")
    return "; ".join(out)


def trial(names, path, op, full):
    """Replays the path, executes the edit, compares."""
    real = make(names)
    state = tuple(() for _ in names)
    for p in path:
        if apply(real, p) is None:
            state = step(names, state, p)
    what = tell(names, path + (op,))
    nxt = step(names, state, op)
    err = apply(real, op)
    if nxt is None and err is None:
        raise Violation(f"accepted-{op[0]}", f"{what}: should have been rejected; now {show(names, shape(real))}")
    if nxt is not None and err is not None:
        raise Violation(f"rejected-{op[0]}", f"{what}: raised {type(err).__name__}: {err}")
    check_structure(names, real, state if nxt is None else nxt, what)
    if full or nxt not in (None, state):
        ask(names, real, state if nxt is None else nxt, what)
    return nxt


# --- cases -------------------------------------------------------------------------------

STATES = {}


def explore(u, last):
    """{state: path}; of the edits that lead to a new state the last ones are kept, so that the histories use all kinds."""
    names = ALL[u]
    ops = list(edits(names))
    ops = ops[::-1] if last else ops
    start = tuple(() for _ in names)
    seen = {start: ()}
    todo = [start]
    while todo:
        nxt = []
        for s in todo:
            for op in ops:
                t = step(names, s, op)
                if t is not None and t not in seen:
                    seen[t] = seen[s] + (op,)
                    nxt.append(t)
        todo = nxt
    return seen


def prepare(tier):
    for u in UNIVERSES if tier == "quick" else ALL:
        for last in (True,) if tier == "quick" else (False, True):
            STATES[u, last] = list(explore(u, last).values())


def cases(tier):
    for (u, last), paths in STATES.items():
        for path in paths:
            yield ("state", u, path, tier != "quick")
    for u in ("inline", "steps") if tier == "quick" else UNIVERSES:
        ops = list(edits(UNIVERSES[u], full=False))
        for a in range(len(ops)):
            if tier == "quick":
                yield ("seq", u, (a,), 2)
            else:
                for b in range(len(ops)):
                    yield ("seq", u, (a, b), 2)
    for (u, last), paths in STATES.items():
        if last:
            for path in paths:
                yield ("walk", u, path)
    most = 14 if tier == "quick" else 24
    for n in range(1, most + 1):
        for odd in [()] + [(i,) for i in range(n)] + list(combinations(range(n), 2)):
            yield ("wide", n, odd)
        for odd in [()] + [(i,) for i in range(1, n)]:
            yield ("tall", n, odd)


def large(case):
    """(names, edits) of a tree with many children, or many generations; a few nodes differ in their class."""
    kind, n, odd = case
    if kind == "wide":
        names = ("Paragraph",) + tuple("Span" if i in odd else "Text" for i in range(n))
        return names, tuple(("append", 0, i + 1) for i in range(n))
    names = ("Paragraph",) + tuple("Note" if i in odd else "Span" for i in range(n)) + ("Text",)
    return names, tuple(("append", i, i + 1) for i in range(n + 1))


def describe(case):
    if case[0] in ("wide", "tall"):
        return tell(*large(case))
    if case[0] == "seq":
        ops = list(edits(ALL[case[1]], full=False))
        return f"{ALL[case[1]]}: " + tell(ALL[case[1]], [ops[i] for i in case[2]]) + f", then every sequence of {case[3]} more"
    return f"{ALL[case[1]]}: {tell(ALL[case[1]], case[2])}"


def run(case):
    kind, u = case[:2]
    if kind in ("wide", "tall"):
        names, ops = large(case)
        real, state = make(names), tuple(() for _ in names)
        for op in ops:
            apply(real, op)
            state = step(names, state, op)
        out = []
        try:
            check_structure(names, real, state, "a large tree")
            ask(names, real, state, "a large tree")
        except Violation as v:
            v.detail = tell(names, ops)
            out.append(v)
        return Result(out, (kind, len(case[2])), execs=1, steps=len(ops))
    names = ALL[u]
    n = 0
    out = []
    if kind == "state":
        for op in edits(names):
            n += 1
            try:
                trial(names, case[2], op, case[3])
            except Violation as v:
                v.detail = tell(names, case[2] + (op,))
                out.append(v)
        out = list({v.key: v for v in out[::-1]}.values())
    elif kind == "seq":
        ops = list(edits(names, full=False))
        first = tuple(ops[i] for i in case[2])
        for rest in product(ops, repeat=case[3]):
            n += 1
            try:
                sequence(names, first + rest)
            except Violation as v:
                v.detail = tell(names, first + rest)
                out.append(v)
                break
    else:
        n = walk(names, case[2], out)
    return Result(out, (kind, u), execs=n, steps=n)


def sequence(names, ops):
    real = make(names)
    state = tuple(() for _ in names)
    for op in ops:
        nxt = step(names, state, op)
        err = apply(real, op)
        if (nxt is None) != (err is not None):
            raise Violation("accepted" if err is None else "rejected", f"{tell(names, ops)}: {tell(names, [op])} was {'accepted' if err is None else 'rejected'}")
        state = state if nxt is None else nxt
    check_structure(names, real, state, tell(names, ops))


def walk(names, path, out):
    """The documented recipe: wrap or replace each node of a class during a traversal, whatever the tree."""
    n = 0
    base = tuple(() for _ in names)
    for p in path:
        base = step(names, base, p)
    for root in range(len(names)):
        if parent_of(base, root) is not None or not base[root]:
            continue
        for target in sorted(set(names)):
            if not all(issubclass(cls(names[c]), nodes.Text) for c in range(len(names)) if names[c] == target):
                continue
            n += 1
            real = make(names)
            for p in path:
                apply(real, p)
            met = []
            for t in real[root].traverse(nodeclass=cls(target)):
                met.append(t.nodeid)
                if t.parent is None:
                    continue
                s = nodes.Span(strong=True)
                t.replace_self(s)
                s.append(t)
                if len(met) > 50:
                    break
            want = [j for j in traversal(base, root) if issubclass(cls(names[j]), cls(target))]
            if met != want:
                out.append(Violation("wrap", f"wrapping each {target} of {label(names, root)} meets {met}, not {want}", tell(names, path)))
            after = wrapped(names, base, root, set(want))
            if real[root].sexp() != after:
                out.append(Violation("wrap", f"wrapping each {target} gives\n{real[root].sexp()}\nnot\n{after}", tell(names, path)))
    return n


def wrapped(names, state, i, targets, depth=0):
    pad = "  " * depth
    if i in targets and parent_of(state, i) is not None:
        return pad + "(Span\n" + pad + "  " + f"({names[i]}))"
    return pad + f"({names[i]}" + "".join("\n" + wrapped(names, state, c, targets, depth + 1) for c in state[i]) + ")"
