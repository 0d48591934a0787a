"""Views of a DOM.  Each check compares one view of the real page with the same view of
the reference page; whitespace that HTML ignores is ignored here too."""
import re
from htmltree import El

INLINE = {"a", "span", "em", "strong", "small", "ins", "del", "sup", "sub", "code", "b", "i"}
WS = re.compile(r"[ \t\n\r\f]+")
# Padding inside these is not fixed by the documentation (and varies with the layout).
LOOSE = {"note", "note__number", "note__content", "draft", "pg-label", "desc", "label"}


def text_of(el):
    out = []
    stack = [el]
    while stack:
        k = stack.pop()
        if isinstance(k, El):
            stack += reversed(k.kids)
        else:
            out.append(k)
    return "".join(out)


def loosen(el):
    """Drop paddings that mean nothing; flatten highlighted code to its text."""
    kids = []
    loose = bool(LOOSE & set(el.classes))
    if el.tag == "code" or el.tag == "pre" and "pseudocode" in el.classes:
        kids = [text_of(el).strip("\n").rstrip()]
    else:
        for k in el.kids:
            if isinstance(k, El):
                kids.append(loosen(k))
            elif el.tag == "pre" and not k.strip():
                continue
            elif kids and isinstance(kids[-1], str):
                kids[-1] += k
            else:
                kids.append(k)
        if loose:
            kids = [k for k in kids if isinstance(k, El) or k.strip()]
            if kids and isinstance(kids[0], str):
                kids[0] = kids[0].lstrip()
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1].rstrip()
        for i, k in enumerate(kids):
            if i and isinstance(k, str) and isinstance(kids[i - 1], El) and kids[i - 1].has("pg-label"):
                kids[i] = k.lstrip()
    e = El(el.tag, el.attrs)
    e.kids = kids
    return e


def canon(el, attrs=True, keep=None, loose=True):
    """Nested tuple for el: blanks collapsed, blank text between blocks dropped."""
    if loose:
        el = loosen(el)
    return _canon(el, attrs, keep)


def _canon(el, attrs, keep):
    kids = []
    block_kids = any(isinstance(k, El) and k.tag not in INLINE and k.tag != "br" for k in el.kids)
    pre = el.tag == "pre" or el.tag == "code"
    for k in el.kids:
        if isinstance(k, El):
            if k.tag == "p" and not k.attrs and not text_of(k).strip() and not k.els:
                continue  # shows nothing; rsm leaves one between two displays
            kids.append(_canon(k, attrs, keep))
        else:
            t = k if pre else WS.sub(" ", k)
            if block_kids and not t.strip():
                continue
            if kids and isinstance(kids[-1], str):
                kids[-1] = kids[-1] + t if pre else WS.sub(" ", kids[-1] + t)
            else:
                kids.append(t)
    if el.tag not in INLINE and not pre:
        if kids and isinstance(kids[0], str):
            kids[0] = kids[0].lstrip()
        if kids and isinstance(kids[-1], str):
            kids[-1] = kids[-1].rstrip()
        kids = [k for k in kids if k != ""]
    a = ()
    if attrs:
        a = tuple(sorted((n, " ".join(sorted(v.split())) if n == "class" else v)
                         for n, v in el.attrs.items()
                         if n not in ("data-nodeid", "tabindex") and (keep is None or n in keep)))
    return (el.tag, a, tuple(kids))


def show(c, indent=0):
    out = []
    tag, a, kids = c
    out.append("  " * indent + tag + " " + " ".join(f"{n}={v}" for n, v in a))
    for k in kids:
        if isinstance(k, str):
            out.append("  " * (indent + 1) + repr(k))
        else:
            out += show(k, indent + 1)
    return out


def firstdiff(a, b):
    import difflib
    A = show(a) if isinstance(a, tuple) and len(a) == 3 and isinstance(a[0], str) else [repr(x) for x in a]
    B = show(b) if isinstance(b, tuple) and len(b) == 3 and isinstance(b[0], str) else [repr(x) for x in b]
    return "\n".join(difflib.unified_diff(A, B, "expected", "actual", lineterm="", n=2))
