"""The cascade: what a stylesheet computes for the elements of a page, for the few properties that decide what is seen.

Nesting, selector lists, combinators, the pseudo-classes of structure and state, specificity, importance, order and
inline styles as in CSS.  A conditional group (@media and the like) holds or not as the caller says.  A selector that
is not understood matches nothing, as in a browser.
"""
import re

from htmltree import El

HIDDEN_TAGS = {"head", "script", "style", "title", "template", "link", "meta", "noscript"}
INHERITED = {"visibility", "list-style-type", "color", "font-size"}
SHORT = {"list-style": "list-style-type"}


class Rule:
    __slots__ = ("sel", "decls", "conds", "order")

    def __init__(self, sel, decls, conds, order):
        self.sel, self.decls, self.conds, self.order = sel, decls, conds, order


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            i = len(s) if j < 0 else j + 2
            out.append(" ")
        elif s[i] in "\"'":
            j = closing_quote(s, i)
            out.append(s[i:j])
            i = j
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def closing_quote(s, i):
    j = i + 1
    while j < len(s) and s[j] != s[i]:
        j += 2 if s[j] == "\\" else 1
    return j + 1


def stop(s, i, chars):
    """The first of chars outside of strings and brackets."""
    depth = 0
    while i < len(s):
        c = s[i]
        if c in "\"'":
            i = closing_quote(s, i)
            continue
        if c in "([":
            depth += 1
        elif c in ")]":
            depth = max(0, depth - 1)
        elif not depth and c in chars:
            return i
        i += 1
    return len(s)


def split(s, sep):
    out, i = [], 0
    while True:
        j = stop(s, i, sep)
        out.append(s[i:j].strip())
        if j >= len(s):
            return out
        i = j + 1


def parse(text, rules=None, wanted=None):
    """The rules of a stylesheet that set a wanted property."""
    rules = [] if rules is None else rules
    body(strip_comments(text), 0, None, (), rules, wanted)
    return rules


def body(s, i, sel, conds, rules, wanted):
    decls = []

    def flush():
        if decls and sel is not None:
            rules.append(Rule(sel, tuple(decls), conds, len(rules)))
            decls.clear()

    while i < len(s):
        j = stop(s, i, ";{}")
        head = s[i:j].strip()
        if j >= len(s) or s[j] in ";}":
            if ":" in head and not head.startswith("@") and sel is not None:
                name, value = head.split(":", 1)
                name, value = name.strip().lower(), value.strip()
                imp = bool(re.search(r"!\s*important$", value))
                value = re.sub(r"\s*!\s*important$", "", value)
                if name in SHORT:
                    name, value = SHORT[name], shorthand(value)
                if wanted is None or name in wanted:
                    decls.append((name, value, imp))
            if j >= len(s) or s[j] == "}":
                flush()
                return j + 1
            i = j + 1
            continue
        flush()
        if head.startswith("@"):
            kind = re.match(r"@[-\w]*", head).group(0)
            if kind in ("@media", "@supports", "@container"):
                i = body(s, j + 1, sel, conds + (head,), rules, wanted)
            elif kind == "@layer":
                i = body(s, j + 1, sel, conds, rules, wanted)
            else:
                i = body(s, j + 1, None, conds, [], wanted)
        else:
            new = []
            for x in split(head, ","):
                c = complex_(x, sel)
                if c is not None:
                    new.append(c)
            i = body(s, j + 1, tuple(new), conds, rules, wanted)
    flush()
    return i


def shorthand(value):
    """The marker of a list-style."""
    words = [w for w in value.split() if w not in ("inside", "outside") and not w.startswith("url(")]
    return words[0] if words else "disc"


# --- selectors ---------------------------------------------------------------------------
# A complex selector is a tuple of (combinator, compound); a compound a tuple of simple selectors.

SIMPLE = re.compile(r"(?P<class>\.[-\w]+)|(?P<id>#[-\w]+)|(?P<attr>\[[^\]]*\])|(?P<elem>::[-\w]+(\([^)]*\))?)|(?P<pseudo>:[-\w]+)|(?P<nest>&)|(?P<type>[-\w]+|\*)")


def complex_(text, outer):
    text = text.strip()
    parts, i, comb = [], 0, " "
    if text[:1] in ">+~":
        comb, i = text[0], 1
    relative = text[:1] in ">+~"
    seen_nest = False
    while i < len(text):
        while i < len(text) and text[i].isspace():
            i += 1
        if i < len(text) and text[i] in ">+~":
            comb = text[i]
            i += 1
            continue
        compound = []
        while i < len(text) and not text[i].isspace() and text[i] not in ">+~":
            m = SIMPLE.match(text, i)
            if not m:
                return None
            i = m.end()
            kind = m.lastgroup if m.lastgroup else ""
            kind = next(k for k in ("class", "id", "attr", "elem", "pseudo", "nest", "type") if m.group(k))
            val = m.group(kind)
            if kind == "pseudo":
                arg = None
                if i < len(text) and text[i] == "(":
                    j = stop(text, i + 1, ")")
                    arg, i = text[i + 1:j], j + 1
                if val in (":before", ":after"):
                    kind, val = "elem", ":" + val
                elif val in (":is", ":not", ":where", ":has"):
                    arg = tuple(c for c in (complex_(a, ()) for a in split(arg, ",")) if c is not None)
                compound.append((kind, val, arg))
            elif kind == "nest":
                seen_nest = True
                compound.append(("nest", outer, None))
            else:
                compound.append((kind, val, None))
        if compound:
            parts.append((comb, tuple(compound)))
            comb = " "
    if outer is not None and outer != () and not seen_nest:
        parts = [("", (("nest", outer, None),))] + parts
    elif parts and not relative:
        parts[0] = ("", parts[0][1])
    return tuple(parts)


def specificity(sel):
    a = b = c = 0
    for _, compound in sel:
        for kind, val, arg in compound:
            if kind == "id":
                a += 1
            elif kind in ("class", "attr"):
                b += 1
            elif kind == "elem" or kind == "type" and val != "*":
                c += 1
            elif kind == "nest" or kind == "pseudo" and val in (":is", ":not", ":has"):
                x = max((specificity(s) for s in (val if kind == "nest" else arg) or ()), default=(0, 0, 0))
                a, b, c = a + x[0], b + x[1], c + x[2]
            elif kind == "pseudo" and val != ":where":
                b += 1
    return a, b, c


def element_of(sel):
    """The pseudo-element that a selector is for, or ''."""
    return next((val for kind, val, _ in sel[-1][1] if kind == "elem"), "") if sel else ""


class Page:
    """The elements of a page and their state: hovered, focused, extra classes and styles."""

    def __init__(self, root):
        self.root = root
        self.hover = set()
        self.focus = set()
        self.plus = {}
        self.style = {}

    def classes(self, e):
        return set(e.classes) | self.plus.get(id(e), set())

    def matches(self, e, sel, scope=None):
        return self._match(e, sel, len(sel) - 1, scope)

    def _match(self, e, sel, k, scope):
        comb, compound = sel[k]
        if not all(self.simple(e, s, scope) for s in compound):
            return False
        if k == 0:
            if comb == "":
                return True
            return self._rel(e, comb, lambda x: x is scope)
        return self._rel(e, comb, lambda x: self._match(x, sel, k - 1, scope))

    def _rel(self, e, comb, ok):
        if comb == ">":
            return e.parent is not None and e.parent.tag != "#root" and ok(e.parent)
        if comb in "+~":
            sibs = e.parent.els if e.parent else [e]
            before = sibs[:next(i for i, x in enumerate(sibs) if x is e)]
            return any(ok(x) for x in (before[-1:] if comb == "+" else before))
        p = e.parent
        while p is not None and p.tag != "#root":
            if ok(p):
                return True
            p = p.parent
        return False

    def simple(self, e, s, scope):
        kind, val, arg = s
        if kind == "type":
            return val == "*" or e.tag == val.lower()
        if kind == "class":
            return val[1:] in self.classes(e)
        if kind == "id":
            return e.id == val[1:]
        if kind == "attr":
            return attribute(e, val[1:-1])
        if kind == "elem":
            return True
        if kind == "nest":
            return any(self.matches(e, x) for x in val) if val else e is self.root.els[0]
        sibs = e.parent.els if e.parent is not None else [e]
        at = next(i for i, x in enumerate(sibs) if x is e)
        if val in (":is", ":where"):
            return any(self.matches(e, x, scope) for x in arg)
        if val == ":not":
            return not any(self.matches(e, x, scope) for x in arg)
        if val == ":has":
            return any(self.matches(d, x if x[0][0] else ((" ", x[0][1]),) + x[1:], e)
                       for x in arg for d in ((*e.walk(),) if x[0][0] not in ("+", "~") else sibs) if d is not e)
        if val == ":hover":
            return id(e) in self.hover
        if val in (":focus", ":focus-visible"):
            return id(e) in self.focus
        if val == ":focus-within":
            return any(id(d) in self.focus for d in e.walk())
        if val == ":root":
            return e.parent is None or e.parent.tag == "#root"
        if val == ":first-child":
            return at == 0
        if val == ":last-child":
            return at == len(sibs) - 1
        if val == ":only-child":
            return len(sibs) == 1
        if val == ":empty":
            return not e.kids
        same = [x for x in sibs if x.tag == e.tag]
        if val == ":first-of-type":
            return same[0] is e
        if val == ":last-of-type":
            return same[-1] is e
        if val in (":nth-child", ":nth-of-type", ":nth-last-child") and arg:
            pos = at + 1 if val == ":nth-child" else len(sibs) - at if val == ":nth-last-child" else 1 + next(i for i, x in enumerate(same) if x is e)
            return nth(arg.strip(), pos)
        if val == ":link":
            return e.tag == "a" and "href" in e.attrs
        return False


def attribute(e, text):
    m = re.fullmatch(r"\s*([-\w]+)\s*(?:([~|^$*]?=)\s*(?:\"([^\"]*)\"|'([^']*)'|([-\w]+)))?\s*[is]?\s*", text)
    if not m or m.group(1) not in e.attrs:
        return False
    if not m.group(2):
        return True
    have, want = e.attrs[m.group(1)], next(g for g in m.groups()[2:] if g is not None)
    return {"=": have == want, "~=": want in have.split(), "^=": bool(want) and have.startswith(want), "$=": bool(want) and have.endswith(want),
            "*=": bool(want) and want in have, "|=": have == want or have.startswith(want + "-")}[m.group(2)]


def nth(arg, pos):
    arg = {"odd": "2n+1", "even": "2n"}.get(arg, arg).replace(" ", "")
    m = re.fullmatch(r"([+-]?\d*)n([+-]\d+)?|([+-]?\d+)", arg)
    if not m:
        return False
    if m.group(3):
        return pos == int(m.group(3))
    a = {"": 1, "+": 1, "-": -1}.get(m.group(1)) if m.group(1) in ("", "+", "-") else int(m.group(1))
    b = int(m.group(2) or 0)
    return pos == b if a == 0 else (pos - b) % a == 0 and (pos - b) // a >= 0


# --- the cascade -------------------------------------------------------------------------

class Sheets:
    def __init__(self, texts, wanted):
        self.rules = []
        for t in texts:
            parse(t, self.rules, set(wanted))
        self.flat = [(r, sel, element_of(sel), specificity(sel), k) for k, r in enumerate(self.rules) for sel in r.sel]
        self.conds = sorted({c for r in self.rules for c in r.conds})

    def styles(self, page, e, elem="", holds=()):
        """{property: value} that the sheets and the inline style give an element or one of its pseudo-elements."""
        best = {}
        for r, sel, el, spec, order in self.flat:
            if el != elem or any(c not in holds for c in r.conds) or not page.matches(e, sel):
                continue
            for k, (name, value, imp) in enumerate(r.decls):
                rank = (imp, False, spec, order, k)
                if name not in best or best[name][0] <= rank:
                    best[name] = (rank, value)
        if not elem:
            for k, d in enumerate(split(page.style.get(id(e), e.attrs.get("style", "")), ";")):
                if ":" in d:
                    name, value = (x.strip() for x in d.split(":", 1))
                    imp = value.endswith("!important")
                    rank = (imp, True, (0, 0, 0), 0, k)
                    name = name.lower()
                    if name not in best or best[name][0] <= rank:
                        best[name] = (rank, value.replace("!important", "").strip())
        return {n: v.lower() if n != "content" else v for n, (_, v) in best.items()}
