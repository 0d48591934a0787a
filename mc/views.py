"""The three renderings of a document model, brought to one common form:

  plain   what rsm.render(...) shows
  hr      what rsm.render(..., handrails=True) shows once its controls are taken away
  ref     what the reference renderer says must be shown
"""
import rsmio
from core import Violation
from docmodel import DEFAULT, emit
from htmltree import BadHTML, El, parse
from project import canon, firstdiff
from refrender import Reference

ZONES = {"hr-collapse-zone", "hr-menu-zone", "hr-border-zone", "hr-spacer-zone", "hr-info-zone"}
DROP = ZONES | {"float-minimap-wrapper", "minimap", "halmos", "rsm-source"}


def is_hr_class(c):
    return c == "hr" or c.startswith("hr-") and c not in ("hr-label",)


def copy(el):
    e = El(el.tag, dict(el.attrs))
    e.kids = [copy(k) if isinstance(k, El) else k for k in el.kids]
    return e


def neutral(el):
    """One form for the plain page, the handrails page and the reference."""
    kids = []
    for k in el.kids:
        if not isinstance(k, El):
            kids.append(k)
            continue
        cs = set(k.classes)
        if cs & DROP:
            continue
        if k.tag == "a" and "bibitem-doi" in cs:
            continue
        k = neutral(k)
        if "hr" in cs:
            zone = [z for z in k.els if "hr-content-zone" in z.classes]
            inner = [x for z in zone for x in z.kids]
            rest = [x for x in k.els if x not in zone]
            left = [c for c in k.classes if not is_hr_class(c)]
            if not zone:
                kids.append(k)
                continue
            if left == ["heading"] or not left:
                kids += inner + rest
                continue
            k2 = El(k.tag, dict(k.attrs))
            k2.attrs["class"] = " ".join(left)
            k2.kids = inner + rest
            k = k2
        if "inline-math-wrapper" in cs:
            for x in k.kids:
                if isinstance(x, El) and x.tag == "span" and not x.attrs:
                    kids += x.kids
                else:
                    kids.append(x)
            continue
        if k.tag == "div" and "bibliography" in k.classes:
            k.tag = "ol"
        if k.tag == "div" and "bibitem" in k.classes:
            k.tag = "li"
        if "bibitem" in k.classes:
            flat = []
            for x in k.kids:
                flat += x.kids if isinstance(x, El) and x.tag == "p" else [x]
            # the link's place differs between the views
            out = []
            for x in flat:
                if isinstance(x, str):
                    x = " ".join(x.split()) if x.strip() else ""
                if x != "":
                    out.append(x)
            k.kids = out
        if "author" in k.classes:
            flat = []
            for x in k.kids:
                flat += x.kids if isinstance(x, El) and "paragraph" in x.classes else [x]
            k.kids = flat
        kids.append(k)
    e = El(el.tag, dict(el.attrs))
    e.kids = kids
    for k in kids:
        if isinstance(k, El):
            k.parent = e
    return e


def page(src, handrails, add_source=False):
    html = rsmio.render(src, handrails, add_source)
    if not html:
        raise Violation("empty", f"render(handrails={handrails}) gave no page for a correct document", src)
    try:
        return parse(html), html
    except BadHTML as e:
        raise Violation("malformed", f"render(handrails={handrails}) gave malformed HTML: {e}", src) from e


class Views:
    def __init__(self, d, lay=DEFAULT, modes=(False, True)):
        self.d = d
        self.src = emit(d, lay)
        self.ref = Reference(d)
        self.want_dom = neutral(self.ref.dom())
        self.raw = {}
        self.html = {}
        self.got = {}
        for h in modes:
            self.raw[h], self.html[h] = page(self.src, h)
            self.got[h] = neutral(self.raw[h])
        self.execs = len(modes)

    def compare(self, view, key, what):
        """view: function of a neutral DOM; violations for every mode that disagrees."""
        out = []
        want = view(self.want_dom)
        for h, dom in self.got.items():
            have = view(dom)
            if have != want:
                out.append(Violation(f"{key}", f"{what} ({'handrails' if h else 'plain'} page)",
                                     self.src + "\n" + firstdiff(want, have)))
        return out


def whole(dom):
    return canon(dom)
