"""Reference renderer: document model -> the DOM a reader must get (plain mode).

Written from the documentation (docstrings, docs/, tests) and kept boring; it never
imports rsm and shares no code with it.  It also produces, per labelled thing, the
number and reference text it must have.
"""
from docmodel import KINDWORD, STATING, caption, mget
from htmltree import El


class Node:
    """Reference tree node; `b` is the model node it came from."""

    __slots__ = ("kind", "b", "meta", "kids", "parent", "num", "full", "label", "inl")

    def __init__(self, kind, b, meta=(), kids=None, inl=None):
        self.kind = kind
        self.b = b
        self.meta = tuple((k, shown(v) if k in SHOWN else v) for k, v in meta)
        self.kids = kids if kids is not None else []
        self.inl = inl
        self.parent = None
        self.num = None
        self.full = ""
        self.label = mget(self.meta, "label", "") or ""

    @property
    def nonum(self):
        return bool(mget(self.meta, "nonum"))

    @property
    def types(self):
        t = mget(self.meta, "types", ())
        return (t,) if isinstance(t, str) else tuple(t)


def letters():
    from itertools import count, product
    for n in count(1):
        for tup in product("ABCDEFGHIJKLMNOPQRSTUVWXYZ", repeat=n):
            yield "".join(tup)


class Reference:
    """One document, fully worked out."""

    def __init__(self, d):
        _, meta, blocks, bib = d
        self.d = d
        self.root = Node("doc", d, meta)
        self.bib = bib
        self.cites = []
        self.warn_labels = []
        self._build(blocks)
        self._labels()
        self._number()
        self._cites()

    # ---- structure ------------------------------------------------------------------
    def _build(self, blocks):
        stack = [(1, self.root)]
        for b in blocks:
            if b[0] == "head":
                level = b[1]
                while stack[-1][0] >= level:
                    stack.pop()
                n = Node("head", b, b[3])
                self._add(stack[-1][1], n)
                stack.append((level, n))
            elif b[0] == "bib":
                while len(stack) > 1:
                    stack.pop()
                n = Node("bib", b)
                self._add(self.root, n)
                for it in self.bib:
                    self._add(n, Node("bibitem", it, (("label", it[1]),)))
            else:
                if b[0] == "appendix":
                    while len(stack) > 1:
                        stack.pop()
                self._block(stack[-1][1], b)

    def _add(self, parent, n):
        n.parent = parent
        parent.kids.append(n)
        return n

    def _block(self, parent, b):
        k = b[0]
        if k == "p":
            n = self._add(parent, Node("p", b, b[2]))
            self._inl(n, b[1])
        elif k == "thm":
            n = self._add(parent, Node("thm", b, b[3]))
            for c in b[2]:
                self._block(n, c)
        elif k in ("sketch", "abstract"):
            n = self._add(parent, Node(k, b, b[2]))
            for c in b[1]:
                self._block(n, c)
        elif k == "proof":
            n = self._add(parent, Node("proof", b, b[2]))
            for c in b[1]:
                self._block(n, c)
        elif k == "step":
            n = self._add(parent, Node("step", b, b[3]))
            st = self._add(n, Node("statement", b))
            for c in b[1]:
                self._block(st, c)
            sub = b[2]
            if sub:
                sp = self._add(n, Node("subproof", b, sub[2] if sub[0] == "p" and len(sub) > 2 else ()))
                for c in (sub[1] if sub[0] == "p" else sub):
                    self._block(sp, c)
        elif k == "list":
            n = self._add(parent, Node("list", b, b[3]))
            for inl, imeta in b[2]:
                it = self._add(n, Node("item", (inl, imeta), imeta))
                self._inl(it, inl)
        elif k == "fig":
            n = self._add(parent, Node("fig", b, b[2]))
            if b[1] is not None:
                inl, cm = caption(b[1])
                self._inl(self._add(n, Node("caption", b, cm)), inl)
        elif k == "table":
            n = self._add(parent, Node("table", b, b[4]))
            for tag, rows in (("thead", b[1]), ("tbody", b[2])):
                if rows is None:
                    continue
                t = self._add(n, Node(tag, b))
                for row in rows:
                    r = self._add(t, Node("tr", b))
                    for cell in row:
                        c = self._add(r, Node("td", b))
                        self._inl(c, cell)
            if b[3] is not None:
                inl, cm = caption(b[3])
                self._inl(self._add(n, Node("caption", b, cm)), inl)
        elif k in ("codeblock", "alg", "mb"):
            self._add(parent, Node(k, b, b[2]))
        elif k == "author":
            self._add(parent, Node(k, b, b[1]))
        elif k in ("toc", "appendix"):
            self._add(parent, Node(k, b))
        else:
            raise ValueError(k)

    def _inl(self, parent, inl):
        for x in inl:
            k = x[0]
            if k == "span":
                n = self._add(parent, Node(k, x, x[3]))
                self._inl(n, x[2])
            elif k == "con":
                n = self._add(parent, Node(k, x, x[3]))
                self._inl(n, x[2])
            elif k in ("note", "draft"):
                n = self._add(parent, Node(k, x, x[2]))
                self._inl(n, x[1])
            elif k in ("math", "code", "mb"):
                self._add(parent, Node(k, x, x[2]))
            else:
                self._add(parent, Node(k, x))

    def walk(self, n=None):
        n = n or self.root
        yield n
        for k in n.kids:
            yield from self.walk(k)

    def up(self, n, *kinds):
        a = n.parent
        while a is not None and a.kind not in kinds:
            a = a.parent
        return a

    # ---- labels ---------------------------------------------------------------------
    def _labels(self):
        self.by_label = {}
        self.dups = []
        for n in self.walk():
            if not n.label:
                continue
            if n.label in self.by_label:
                self.dups.append(n.label)
                n.label = ""
            else:
                self.by_label[n.label] = n

    # ---- numbers --------------------------------------------------------------------
    def _number(self):
        cnt = {}

        def tick(scope, what):
            cnt[(scope, what)] = cnt.get((scope, what), 0) + 1
            return cnt[(scope, what)]

        def reset(scope):
            for key in [k for k in cnt if k[0] == scope]:
                del cnt[key]

        app = None
        self.appendix = set()
        for n in self.walk():
            if n.kind == "appendix":
                app = letters()
                continue
            if n.kind == "step":
                if n.parent.kind in ("proof", "subproof"):
                    n.num = 1 + [x for x in n.parent.kids if x.kind == "step"].index(n)
                continue
            if n.nonum:
                continue
            if n.kind == "head":
                lvl = n.b[1]
                if lvl == 2:
                    n.num = next(app) if app else tick("doc", "h2")
                    reset("h2")
                elif lvl == 3:
                    n.num = tick("h2", "h3")
                    reset("h3")
                else:
                    n.num = tick("h3", "h4")
                if app:
                    self.appendix.add(id(n))
            elif n.kind == "thm":
                n.num = tick("h2", "thm")
            elif n.kind == "mb":
                n.num = tick("h2", "mb")
            elif n.kind == "fig":
                n.num = tick("h2", "fig")
            elif n.kind == "table":
                n.num = tick("doc", "table")
            elif n.kind == "alg":
                n.num = tick("doc", "alg")
            elif n.kind == "bibitem":
                n.num = tick("doc", "bib")
        for n in self.walk():
            n.full = self._full(n)

    def _full(self, n):
        if n.num is None:
            return ""
        if n.kind == "step":
            a = self.up(n, "step", "proof")
            pre = self._full(a) if a and a.kind == "step" else ""
        elif n.kind == "head" and n.b[1] > 2:
            a = n.parent
            want = n.b[1] - 1
            while a is not None and not (a.kind == "head" and a.b[1] == want):
                a = a.parent
            pre = self._full(a) if a else ""
        elif n.kind in ("thm", "mb", "fig"):
            a = n.parent
            while a is not None and not (a.kind == "head" and a.b[1] == 2):
                a = a.parent
            pre = self._full(a) if a else ""
        else:
            pre = ""
        return f"{pre}.{n.num}" if pre else str(n.num)

    def reftext(self, n):
        custom = mget(n.meta, "reftext")
        k = n.kind
        if k == "head":
            cls = {2: "Section", 3: "Section", 4: "Section"}[n.b[1]]
            if id(n) in self.appendix and n.b[1] == 2:
                cls = "Appendix"
            t = f"{cls} {n.full}"
        elif k == "thm":
            cls = n.b[1].capitalize()
            t = f"{cls} {n.full}"
        elif k == "mb":
            cls, t = "MathBlock", f"({n.full})"
        elif k == "step":
            cls, t = "Step", f"Step ⟨{n.full}⟩"
        elif k == "bibitem":
            cls, t = "Bibitem", n.full
        elif k == "codeblock":
            cls, t = "CodeBlock", "Code Listing"
        else:
            cls = {"p": "Paragraph", "fig": "Figure", "table": "Table", "alg": "Algorithm",
                   "item": "Item", "doc": "Manuscript", "span": "Span", "con": "Construct",
                   "math": "Math", "code": "Code", "list": None, "proof": "Proof",
                   "sketch": "Sketch", "abstract": "Abstract", "note": "Note",
                   "draft": "Draft", "author": "Author", "subproof": "Subproof", "caption": "Caption"}[k]
            if k == "list":
                cls = n.b[1].capitalize()
            t = f"{cls} {n.full}"
        if custom:
            t = custom.replace("{nodeclass}", cls).replace("{number}", n.full)
        return t.strip()

    # ---- citations ------------------------------------------------------------------
    def _cites(self):
        self.cite_ids = {}
        self.backlinks = {}
        taken = [f"{x}-" for x in self.by_label]
        c = 0
        for n in self.walk():
            if n.kind != "cite":
                continue
            cid = f"cite-{c}"
            c += 1
            while any(x.startswith(f"{cid}-") for x in taken):
                cid = f"cite-{c}"
                c += 1
            self.cite_ids[id(n)] = cid
            for lab in n.b[1]:
                t = self.entry(lab)
                if t is not None:
                    self.backlinks.setdefault(id(t), []).append(cid)

    def entry(self, label):
        t = self.by_label.get(label)
        return t if t is not None and t.kind == "bibitem" else None

    # ---- DOM ------------------------------------------------------------------------
    def dom(self):
        body = El("body")
        w = self._e(body, "div", cls="manuscriptwrapper")
        m = self._e(w, "div", cls="manuscript", id=self.root.label, types=self.root.types)
        s = self._e(m, "section", cls="level-1")
        title = mget(self.root.meta, "title")
        if title:
            self._e(s, "h1", text=title)
        for k in self.root.kids:
            self._dom(s, k)
        top = El("#root")
        top.kids = [body]
        return top

    def _e(self, parent, tag, cls="", id="", types=(), text=None, **attrs):
        a = {}
        if id:
            a["id"] = id
        names = list(dict.fromkeys(cls.split() + list(types)))
        if names:
            a["class"] = " ".join(names)
        a.update({k.rstrip("_"): v for k, v in attrs.items() if v not in ("", None)})
        e = El(tag, a, parent)
        parent.kids.append(e)
        if text is not None and text != "":
            e.kids.append(text)
        return e

    def _kids(self, e, n):
        for k in n.kids:
            self._dom(e, k)

    def _inline_edges(self, n):
        """Text of an inline container is stripped at its two ends."""
        return [k for k in n.kids]

    def _flow(self, e, n, strip=True):
        """Inline children of n into e; outermost blanks are dropped."""
        ks = list(n.kids)
        if strip:
            while ks and ks[0].kind == "t" and not ks[0].b[1].strip():
                ks.pop(0)
            while ks and ks[-1].kind == "t" and not ks[-1].b[1].strip():
                ks.pop()
        for i, k in enumerate(ks):
            if i and {k.kind, ks[i - 1].kind} <= {"span", "con", "math"}:
                # documented: one space is always shown between these
                e.kids.append(" ")
            if k.kind == "t":
                s = k.b[1]
                if strip and i == 0:
                    s = s.lstrip()
                if strip and i == len(ks) - 1:
                    s = s.rstrip()
                e.kids.append(unescape(s))
            else:
                self._dom(e, k)

    def _title_para(self, e, label, desc=""):
        p = self._e(self._e(e, "div", cls="paragraph hr-label"), "p")
        self._e(p, "span", cls="span label", text=label)
        if desc:
            self._e(p, "span", cls="span desc", text=desc)

    def _dom(self, e, n):
        k = n.kind
        lab, ty = n.label, n.types
        if k == "head":
            lvl = n.b[1]
            cls = {2: "section", 3: "subsection", 4: "subsubsection"}[lvl]
            s = self._e(e, "section", cls=f"{cls} level-{lvl}", id=lab, types=ty)
            title = unescape(n.b[2])
            self._e(s, f"h{lvl}", text=title if n.nonum else f"{n.full}. {title}")
            self._kids(s, n)
        elif k == "p":
            self._para(e, n, "paragraph")
        elif k == "thm":
            d = self._e(e, "div", cls=n.b[1], id=lab, types=tuple(ty) + ("theorem",))
            title = mget(n.meta, "title", "")
            num = f" {n.full}" if n.num else ""
            self._title_para(d, n.b[1].capitalize() + num + (": " if title else "."), title)
            self._kids(d, n)
        elif k == "proof":
            d = self._e(e, "div", cls="proof", id=lab, types=ty)
            self._title_para(d, "Proof.")
            self._kids(d, n)
            self._e(d, "div", cls="halmos")
        elif k == "sketch":
            d = self._e(e, "div", cls="sketch", id=lab, types=ty)
            self._title_para(d, "Proof sketch.")
            self._kids(d, n)
        elif k == "step":
            steps = [x for x in n.parent.kids if x.kind == "step"]
            last = ("last",) if n.parent.kind == "proof" and steps[-1] is n else ()
            d = self._e(e, "div", cls="step", id=lab, types=tuple(ty) + last)
            self._kids(d, n)
        elif k in ("statement", "subproof"):
            self._kids(self._e(e, "div", cls=k, id=lab, types=ty), n)
        elif k == "abstract":
            d = self._e(e, "div", cls="abstract", id=lab, types=ty)
            self._e(d, "h3", text="Abstract")
            self._kids(d, n)
            for key, cls in (("keywords", "Keywords"), ("msc", "MSC")):
                v = mget(n.meta, key)
                if v:
                    self._e(d, "p", cls=key, text=f"{cls}: {v if isinstance(v, str) else ', '.join(v)}")
        elif k == "author":
            d = self._e(e, "div", cls="author", id=lab, types=ty)
            vals = [mget(n.meta, x) for x in ("name", "affiliation", "email")]
            if any(vals):
                p = self._e(d, "div", cls="paragraph")
                for v in vals[:2]:
                    if v:
                        self._e(p, "p", text=v)
                if vals[2]:
                    self._e(self._e(p, "p"), "a", href=f"mailto:{vals[2]}", text=vals[2])
        elif k == "list":
            tag = "ol" if n.b[1] == "enumerate" else "ul"
            d = self._e(e, tag, cls=n.b[1], id=lab, types=ty)
            for it in n.kids:
                self._flow(self._e(d, "li", cls="item", id=it.label, types=it.types), it)
        elif k == "fig":
            d = self._e(e, "figure", cls="figure", id=lab, types=ty)
            num = f" {n.full}" if n.full else ""
            scale = mget(n.meta, "scale")
            self._e(d, "img", src=mget(n.meta, "path", "."), alt=f"Figure{num}.",
                    onload=f"this.width*={scale};" if scale else "")
            for c in n.kids:
                f = self._e(d, "figcaption", id=c.label, types=c.types)
                self._e(f, "span", cls="label", text=f"Figure{num}. ")
                self._flow(f, c)
        elif k == "table":
            d = self._e(e, "table", cls="table", id=lab, types=ty)
            num = f" {n.full}" if n.full else ""
            for c in n.kids:
                if c.kind == "caption":
                    f = self._e(d, "caption", id=c.label, types=c.types)
                    self._e(f, "span", cls="label", text=f"Table{num}. ")
                    self._flow(f, c)
                else:
                    t = self._e(d, c.kind, cls={"thead": "tablehead", "tbody": "tablebody"}[c.kind])
                    for r in c.kids:
                        tr = self._e(t, "tr", cls="tablerow")
                        for cell in r.kids:
                            self._flow(self._e(tr, "td", cls="tabledatum"), cell)
        elif k == "codeblock":
            d = self._e(e, "div", cls="codeblock", id=lab, types=ty)
            pre = self._e(d, "pre")
            lang = mget(n.meta, "lang")
            self._e(pre, "code", cls=f"highlight {lang}" if lang else "", text=n.b[1])
        elif k == "mb":
            box = e
            if mget(n.meta, "isclaim"):
                box = self._e(e, "div", cls="claimblock")
                self._e(box, "span", cls="keyword", text=KINDWORD["claim"])
            m = self._e(box, "div", cls="mathblock", id=lab, types=ty)
            m.kids.append(f"$$\n{n.b[1]}\n$$")
        elif k == "alg":
            d = self._e(e, "div", cls="algorithm", id=lab, types=ty)
            self._e(d, "pre", cls="pseudocode", text=n.b[1])
        elif k == "toc":
            self._toc(e, n)
        elif k == "appendix":
            pass
        elif k == "bib":
            s = self._e(e, "section", cls="level-2")
            self._e(s, "h2", text="References")
            d = self._e(s, "ol", cls="bibliography")
            self._kids(d, n)
        elif k == "bibitem":
            self._bibitem(e, n)
        # inline ----------------------------------------------------------------------
        elif k == "t":
            e.kids.append(unescape(n.b[1]))
        elif k == "span":
            d = self._e(e, "span", cls="span", id=lab, types=ty)
            for a, tag in (("strong", "strong"), ("emphas", "em")):
                if a in n.b[1]:
                    d = self._e(d, tag)
            self._flow(d, n)
        elif k == "math":
            d = self._e(e, "span", cls="math", id=lab, types=ty)
            d.kids.append("\\(" + n.b[1] + "\\)")
        elif k == "code":
            d = self._e(e, "span", cls="code", id=lab, types=ty)
            lang = mget(n.meta, "lang")
            self._e(d, "code", cls=f"highlight {lang}" if lang else "", text=n.b[1])
        elif k == "con":
            kind = n.b[1]
            extra = (kind,) if kind in STATING else (kind, "assumption")
            d = self._e(e, "span", cls="construct", id=lab, types=tuple(ty) + extra)
            self._e(d, "span", cls="keyword", text=KINDWORD[kind])
            if n.kids:
                d.kids.append(" ")
            self._flow(d, n)
        elif k == "ref":
            t = self.by_label.get(n.b[1])
            if t is None:
                self._e(e, "span", cls="error", text=f'[unknown label "{n.b[1]}"]')
            else:
                self._e(e, "a", cls="reference", href=f"#{n.b[1]}", text=unescape(n.b[2]) or self.reftext(t))
        elif k == "prev":
            st = self.up(n, "step")
            sib = [x for x in st.parent.kids if x.kind == "step"]
            t = sib[[x is st for x in sib].index(True) - n.b[1]]
            self._e(e, "a", cls="reference", href=f"#{t.label}", text=unescape(n.b[3]) or self.reftext(t))
        elif k == "url":
            self._e(e, "a", href=n.b[1], text=unescape(n.b[2]) or n.b[1])
        elif k == "cite":
            cid = self.cite_ids[id(n)]
            e.kids.append("[")
            labs = n.b[1]
            box = e if len(labs) == 1 else self._e(e, "span", id=cid)
            for i, l in enumerate(labs):
                t = self.entry(l)
                if i:
                    box.kids.append(", ")
                self._e(box, "a", cls="reference cite" + (" unknown" if t is None and len(labs) == 1 else ""),
                        id=cid if len(labs) == 1 else f"{cid}-{i}",
                        href=f"#{l}" if t is not None else "#",
                        text=self.reftext(t) if t is not None else f'[unknown label "{l}"]')
            e.kids.append("]")
        elif k == "note":
            d = self._e(e, "span", cls="note")
            self._e(self._e(d, "sup", cls="note__number"), "a", cls="note__link", text=n.full)
            self._flow(self._e(d, "span", cls="note__content", id=lab), n)
        elif k == "draft":
            d = self._e(e, "span", cls="draft", id=lab, types=ty)
            d.kids.append("[ ")
            self._flow(d, n)
            d.kids.append(" ]")
        else:
            raise ValueError(k)

    def _para(self, e, n, cls):
        d = self._e(e, "div", cls=cls, id=n.label, types=n.types)
        title = mget(n.meta, "title")
        p = self._e(d, "p")
        if title:
            self._e(p, "span", cls="pg-label", text=f"{title}.")
        chunks = [[]]
        for k in n.kids:
            if k.kind == "mb":
                chunks += [k, []]
            else:
                chunks[-1].append(k)
        for i, c in enumerate(chunks):
            if isinstance(c, Node):
                self._dom(d, c)
            else:
                if i > 0:
                    if not c:
                        continue
                    p = self._e(d, "p")
                tmp = Node("tmp", None)
                tmp.kids = c
                self._flow(p, tmp)

    def _toc(self, e, n):
        if next(x for x in self.walk() if x.kind == "toc") is not n:
            return  # only the first is shown
        d = self._e(e, "div", cls="toc")
        self._e(d, "h3", text="Table of Contents")
        w = self._e(d, "div", cls="toc-wrapper")
        top = self._e(w, "ul", cls="contents")
        heads = [x for x in self.walk() if x.kind == "head"]

        def rec(ul, parent):
            for h in [x for x in heads if x.parent is parent]:
                li = self._e(ul, "li", cls="item")
                t = unescape(h.b[2])
                self._e(li, "a", cls="reference", href=f"#{h.label}",
                        text=t if h.nonum else f"{h.full}. {t}")
                if any(x.parent is h for x in heads):
                    rec(self._e(li, "ul", cls="itemize"), h)
        rec(top, self.root)

    def _bibitem(self, e, n):
        kind, label, pairs = n.b
        g = dict(pairs).get
        d = self._e(e, "li", cls="bibitem", id=label if n.label else "")
        parts = [f"{n.full}."]
        if g("author"):
            parts.append(g("author"))
        if g("title"):
            parts.append(f'"{g("title")}"')
        if kind == "article" and g("journal"):
            parts.append(g("journal"))
        if kind == "book" and g("publisher"):
            parts.append(g("publisher"))
        if g("year"):
            parts.append(g("year"))
        txt = ". ".join(p.strip(".") for p in parts) + "."
        txt = unescape_bib(txt)
        d.kids.append(txt)
        if g("doi"):
            d.kids.append(" ")
            self._e(d, "a", cls="bibitem-doi", id=f"{label}-doi", href=f"https://doi.org/{g('doi')}",
                    target="_blank", text="[link]")
        bl = self.backlinks.get(id(n))
        if bl:
            self._e(d, "br")
            d.kids.append("[")
            for i, c in enumerate(bl, 1):
                if i > 1:
                    d.kids.append(",")
                self._e(d, "a", cls="reference backlink", href=f"#{c}", text=f"↖{i}")
            d.kids.append("]")


DELIMS = ":%$`*{#"


def unescape_bib(s):
    return s


# metadata that a reader sees
SHOWN = ("title", "reftext", "name", "affiliation", "email", "keywords", "msc", "date")


def shown(v):
    return tuple(map(unescape, v)) if isinstance(v, tuple) else unescape(v) if isinstance(v, str) else v


def unescape(s):
    if not s:
        return s
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s) and s[i + 1] in DELIMS:
            out.append(s[i + 1])
            i += 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)
