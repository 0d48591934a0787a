"""A strict HTML reader: no error recovery, unlike a browser or html.parser.

Every open tag must be closed in the right order, every attribute value must be quoted
or a bare token, every `<` must start a tag (or comment) and every `&` must start a
character reference when `strict_text` is set.  Anything else raises BadHTML.
"""
import html as _html
import re

VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta",
        "param", "source", "track", "wbr"}
RAW = {"script", "style"}

TAG = re.compile(r"<(/?)([A-Za-z][A-Za-z0-9]*)((?:\s+[^\s\"'<>/=]+(?:\s*=\s*(?:\"[^\"]*\"|'[^']*'|[^\s\"'=<>`]+))?)*)\s*(/?)>")
ATTR = re.compile(r"([^\s\"'<>/=]+)(?:\s*=\s*(?:\"([^\"]*)\"|'([^']*)'|([^\s\"'=<>`]+)))?")
OPENER = re.compile(r"<[A-Za-z/!?]")
REF = re.compile(r"&(#[0-9]+|#[xX][0-9a-fA-F]+|[A-Za-z][A-Za-z0-9]*);")
BAREAMP = re.compile(r"&[A-Za-z#]")


class BadHTML(Exception):
    pass


class El:
    __slots__ = ("tag", "attrs", "kids", "parent")

    def __init__(self, tag, attrs=None, parent=None):
        self.tag = tag
        self.attrs = attrs or {}
        self.kids = []
        self.parent = parent

    @property
    def classes(self):
        return self.attrs.get("class", "").split()

    def has(self, cls):
        return cls in self.classes

    @property
    def id(self):
        return self.attrs.get("id", "")

    @property
    def els(self):
        return [k for k in self.kids if isinstance(k, El)]

    def walk(self):
        """Preorder over elements, self included."""
        stack = [self]
        while stack:
            e = stack.pop()
            yield e
            stack += [k for k in reversed(e.kids) if isinstance(k, El)]

    def find_all(self, pred):
        return [e for e in self.walk() if e is not self and pred(e)]

    def find(self, pred):
        for e in self.walk():
            if e is not self and pred(e):
                return e
        return None

    def text(self, skip=None):
        out = []

        def rec(e):
            for k in e.kids:
                if isinstance(k, El):
                    if skip is None or not skip(k):
                        rec(k)
                else:
                    out.append(k)
        rec(self)
        return "".join(out)

    def __repr__(self):
        return f"<{self.tag} {self.attrs}>"


def parse(src, strict_text=False):
    root = El("#root")
    cur = root
    pos, n = 0, len(src)

    def addtext(t):
        if not t:
            return
        if strict_text and BAREAMP.search(REF.sub("", t)):
            raise BadHTML(f"bare ampersand in text {t[:60]!r}")
        t = _html.unescape(t)
        if cur.kids and isinstance(cur.kids[-1], str):
            cur.kids[-1] += t
        else:
            cur.kids.append(t)

    while pos < n:
        lt = src.find("<", pos)
        while 0 <= lt < n and not OPENER.match(src, lt):
            lt = src.find("<", lt + 1)  # HTML takes this one for text
        if lt < 0:
            addtext(src[pos:])
            break
        addtext(src[pos:lt])
        if src.startswith("<!--", lt):
            end = src.find("-->", lt)
            if end < 0:
                raise BadHTML("unterminated comment")
            pos = end + 3
            continue
        m = TAG.match(src, lt)
        if not m:
            raise BadHTML(f"stray '<' at {src[lt:lt+60]!r}")
        closing, tag, attrtxt, selfclose = m.groups()
        tag = tag.lower()
        pos = m.end()
        if closing:
            if attrtxt.strip() or selfclose:
                raise BadHTML(f"attributes on closing tag {m.group(0)!r}")
            if cur is root:
                raise BadHTML(f"closing </{tag}> with nothing open")
            if cur.tag != tag:
                raise BadHTML(f"closing </{tag}> while <{cur.tag} id={cur.id!r} class={cur.attrs.get('class', '')!r}> is open")
            cur = cur.parent
            continue
        attrs = {}
        for a in ATTR.finditer(attrtxt):
            name = a.group(1).lower()
            if name in attrs:
                raise BadHTML(f"duplicate attribute {name} in {m.group(0)!r}")
            val = next((g for g in a.groups()[1:] if g is not None), "")
            attrs[name] = _html.unescape(val)
        el = El(tag, attrs, cur)
        cur.kids.append(el)
        if tag in VOID or selfclose:
            continue
        cur = el
        if tag in RAW:
            end = src.find(f"</{tag}", pos)
            if end < 0:
                raise BadHTML(f"unterminated <{tag}>")
            el.kids.append(src[pos:end])
            pos = end
    if cur is not root:
        raise BadHTML(f"<{cur.tag} id={cur.id!r} class={cur.attrs.get('class', '')!r}> is never closed")
    return root


def dump(el, indent=0, drop=()):
    """Compact listing for humans."""
    out = []
    for k in el.kids:
        if isinstance(k, str):
            t = re.sub(r"\s+", " ", k)
            if t.strip():
                out.append("  " * indent + repr(t))
        else:
            if any(k.has(c) for c in drop):
                continue
            a = " ".join(f"{n}={v}" for n, v in k.attrs.items() if n not in ("tabindex",))
            out.append("  " * indent + f"{k.tag} {a}".rstrip())
            out += dump(k, indent + 1, drop)
    return out
