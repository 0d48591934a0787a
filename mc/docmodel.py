"""A document model that is independent of rsm.

A *document* is a plain nested tuple; `emit` writes it as RSM markup and `expect` says,
from the documented behaviour alone, what a reader must see.  Nothing here imports rsm.

Inline nodes
  ("t", text)                    literal text (may contain escapes, see esc())
  ("span", attrs, kids, meta)    attrs: tuple out of strong emphas
  ("math", tex, meta)
  ("code", src, meta)
  ("con", kind, kids, meta)      construct (:let: ... ::)
  ("ref", label, text)  ("cite", labels)  ("url", target, text)
  ("note", kids, meta)  ("draft", kids, meta)
  ("prev", n, form, text)        form: "previous" | "prev"
  ("mb", tex, meta)              display math inside a paragraph

Block nodes
  ("p", inlines, meta)           meta of a paragraph uses the :paragraph: tag
  ("head", level, title, meta)   level 2, 3, 4; starts a (sub)(sub)section
  ("thm", kind, blocks, meta)
  ("proof", steps, meta)         ("step", blocks, sub, meta); sub: None | ("p", blocks[, meta]) | steps tuple
  ("sketch", blocks, meta)
  ("list", kind, items, meta)    items: ((inlines, meta), ...)
  ("fig", caption|None, meta)    ("table", head, body, caption|None, meta)
  ("codeblock", src, meta)       ("alg", src, meta)
  ("mb", tex, meta)              display math on its own
  ("toc",) ("appendix",) ("bib",)
  ("raw", text)                  verbatim markup

Document: ("doc", meta, blocks, bibitems)   bibitems: ((kind, label, ((key, val), ...)), ...)

meta is a tuple of (key, value) pairs; value True means a boolean key, a tuple means a list.
"""

SPANSTAR = {"strong": "*", "emphas": "/"}
KINDWORD = {
    "let": "LET", "define": "DEFINE", "write": "WRITE", "case": "CASE", "then": "THEN",
    "new": "NEW", "assume": "ASSUME", "prove": "PROVE", "pick": "PICK",
    "suffices": "SUFFICES", "claim": "⊢", "qed": "QED", "st": "SUCH THAT",
    "suppose": "SUPPOSE", "wlog": "WLOG",
}
# constructs that state something rather than assume it
STATING = ("then", "suffices", "claim", "claimblock", "qed", "prove")
THM_KINDS = ("theorem", "lemma", "corollary", "definition", "example", "proposition", "remark",
             "exercise", "problem", "porism")


def mget(meta, key, default=None):
    for k, v in meta:
        if k == key:
            return v
    return default


def _val(v, brace_lists):
    if isinstance(v, tuple):
        s = ", ".join(v)
        return "{" + s + "}" if brace_lists and len(v) > 1 else s
    return str(v)


class Layout:
    """How to write a document down; every setting must leave its meaning alone."""

    def __init__(self, short=True, indent=0, blank=1, brace_lists=True, halmos_line=True,
                 item_gap=1, trailing="", comments=False, tab=False):
        self.short = short
        self.indent = indent
        self.blank = blank
        self.brace_lists = brace_lists
        self.trailing = trailing
        self.comments = comments
        self.tab = tab


DEFAULT = Layout()


class Choices(Layout):
    """A form for each place that has two, in the order in which they are written; `places` counts them."""

    def __init__(self, bits, rest=True, **kw):
        super().__init__(**kw)
        self.bits, self.rest, self.places = bits, rest, 0

    @property
    def short(self):
        i = self.places
        self.places += 1
        return self.bits[i] if i < len(self.bits) else self.rest

    @short.setter
    def short(self, _):
        pass


def caption(cap):
    """A caption is its inlines, or ("cap", inlines, meta)."""
    return (cap[1], cap[2]) if cap and cap[0] == "cap" else (cap, ())


def inline_meta(meta, lay):
    if not meta:
        return ""
    parts = []
    for k, v in meta:
        parts.append(f":{k}:" if v is True else f":{k}: {_val(v, lay.brace_lists)}")
    return "{" + ", ".join(parts) + "}"


def emit_inline(n, lay=DEFAULT):
    k = n[0]
    if k == "t":
        return n[1]
    if k == "span":
        _, attrs, kids, meta = n
        body = emit_inlines(kids, lay)
        if len(attrs) == 1 and attrs[0] in SPANSTAR and not meta and lay.short:
            c = SPANSTAR[attrs[0]]
            return f"{c}{body}{c}"
        m = tuple((a, True) for a in attrs) + tuple(meta)
        return f":span: {inline_meta(m, lay)} {body} ::" if m else f":span: {body} ::"
    if k == "math":
        _, tex, meta = n
        if lay.short:
            return f"${inline_meta(meta, lay)}{tex}$"
        return f":math: {inline_meta(meta, lay)}{' ' if meta else ''}{tex} ::"
    if k == "code":
        _, src, meta = n
        if lay.short:
            return f"`{inline_meta(meta, lay)}{src}`"
        return f":code: {inline_meta(meta, lay)}{' ' if meta else ''}{src} ::"
    if k == "con":
        _, kind, kids, meta = n
        tag = "⊢" if kind == "claim" and lay.short else kind
        m = inline_meta(meta, lay)
        if kind == "qed":
            return f":{tag}:"
        return f":{tag}:{m} {emit_inlines(kids, lay)} ::"
    if k == "ref":
        return f":ref:{n[1]}{',' + n[2] if n[2] else ''}::"
    if k == "cite":
        return f":cite:{','.join(n[1])}::"
    if k == "url":
        return f":url:{n[1]}{',' + n[2] if n[2] else ''}::"
    if k == "note":
        return f":note:{inline_meta(n[2], lay)} {emit_inlines(n[1], lay)} ::"
    if k == "draft":
        return f":draft:{inline_meta(n[2], lay)} {emit_inlines(n[1], lay)} ::"
    if k == "prev":
        _, num, form, text = n
        if form == "prev" and lay.short:
            return ":prev:" if num == 1 else f":prev{num}:"
        return f":previous:{num}{',' + text if text else ''}::"
    if k == "raw":
        return n[1]
    raise ValueError(k)


def emit_inlines(kids, lay=DEFAULT):
    return "".join(emit_inline(x, lay) for x in kids)


class Emitter:
    def __init__(self, lay=DEFAULT):
        self.lay = lay
        self.lines = []
        self.depth = 0

    def w(self, s=""):
        pad = ("\t" if self.lay.tab else " " * self.lay.indent) * self.depth if s else ""
        for line in s.split("\n"):
            self.lines.append((pad + line + self.lay.trailing) if line else "")

    def gap(self):
        for _ in range(self.lay.blank):
            self.lines.append("")
        if self.lay.comments:
            self.lines.append("% a remark nobody should see")
            self.lines.append("")

    def meta(self, meta):
        for k, v in meta:
            self.w(f"  :{k}:" if v is True else f"  :{k}: {_val(v, self.lay.brace_lists)}")

    def paragraph(self, inl):
        """A paragraph's lines; display math starts its own line."""
        cur = []
        lines = []
        for n in inl:
            if n[0] == "mb":
                if cur:
                    lines.append(emit_inlines(cur, self.lay).rstrip())
                    cur = []
                _, tex, meta = n
                o, c = ("$$", "$$") if self.lay.short else (":mathblock:", "::")
                lines.append(o)
                for k, v in meta:
                    lines.append(f"  :{k}:" if v is True else f"  :{k}: {_val(v, self.lay.brace_lists)}")
                lines.append(tex)
                lines.append(c)
            else:
                cur.append(n)
        if cur:
            lines.append(emit_inlines(cur, self.lay).strip())
        return "\n".join(lines)

    def block(self, b):
        k = b[0]
        if k == "p":
            _, inl, meta = b
            txt = self.paragraph(inl)
            if meta:
                txt = f":paragraph: {inline_meta(meta, self.lay)} " + txt
            self.w(txt)
        elif k == "head":
            _, level, title, meta = b
            if self.lay.short:
                self.w("#" * level + " " + title)
                self.meta(meta)
            else:
                self.w({2: ":section:", 3: ":subsection:", 4: ":subsubsection:"}[level])
                self.meta((("title", title),) + tuple(meta))
        elif k == "thm":
            _, kind, blocks, meta = b
            self.w(f":{kind}:")
            self.meta(meta)
            self.gap()
            self.blocks(blocks)
            self.w("::")
        elif k == "sketch":
            _, blocks, meta = b
            self.w(":sketch:")
            self.meta(meta)
            self.gap()
            self.blocks(blocks)
            self.w("::")
        elif k == "abstract":
            _, blocks, meta = b
            self.w(":abstract:")
            self.meta(meta)
            self.gap()
            self.blocks(blocks)
            self.w("::")
        elif k == "author":
            self.w(":author:")
            self.meta(b[1])
            self.w("::")
        elif k == "proof":
            _, steps, meta = b
            self.w(":proof:")
            self.meta(meta)
            self.gap()
            self.blocks(steps)
            self.w("::")
        elif k == "step":
            _, blocks, sub, meta = b
            self.w(":step:")
            self.meta(meta)
            self.gap()
            self.blocks(blocks)
            if sub is not None:
                if sub and sub[0] == "p":
                    self.w(":p:")
                    self.meta(sub[2] if len(sub) > 2 else ())
                    self.gap()
                    self.blocks(sub[1])
                    self.w("::")
                    self.gap()
                else:
                    self.blocks(sub)
            self.w("::")
        elif k == "list":
            _, kind, items, meta = b
            self.w(f":{kind}:")
            self.meta(meta)
            self.gap()
            self.depth += 1
            for inl, imeta in items:
                m = inline_meta(imeta, self.lay)
                self.w(f":item: {m}{' ' if m else ''}{self.paragraph(inl)}")
                self.gap()
            self.depth -= 1
            self.w("::")
        elif k == "fig":
            _, cap, meta = b
            self.w(":figure:")
            self.meta(meta)
            self.gap()
            if cap is not None:
                inl, cm = caption(cap)
                m = inline_meta(cm, self.lay)
                self.w(f":caption: {m}{' ' if m else ''}" + emit_inlines(inl, self.lay))
                self.gap()
            self.w("::")
        elif k == "table":
            _, head, body, cap, meta = b
            self.w(":table:")
            self.meta(meta)
            self.gap()
            for tag, rows in (("thead", head), ("tbody", body)):
                if rows is None:
                    continue
                self.w(f":{tag}:")
                self.gap()
                for row in rows:
                    cells = [emit_inlines(c, self.lay) for c in row]
                    if self.lay.short:
                        self.w(":tr: " + " : ".join(cells) + " ::")
                    else:
                        self.w(":tr: " + " ".join(f":td: {c} ::" for c in cells) + " ::")
                    self.gap()
                self.w("::")
                self.gap()
            if cap is not None:
                inl, cm = caption(cap)
                m = inline_meta(cm, self.lay)
                self.w(":caption:")
                self.w((f"{m} " if m else "") + emit_inlines(inl, self.lay))
                self.gap()
            self.w("::")
        elif k == "codeblock":
            _, src, meta = b
            if self.lay.short:
                self.w("```")
                self.meta(meta)
                self.lines.append(src)
                self.w("```")
            else:
                self.w(":codeblock:")
                self.meta(meta)
                self.lines.append(src)
                self.w("::")
        elif k == "alg":
            _, src, meta = b
            self.w(":algorithm:")
            self.meta(meta)
            self.lines.append(src)
            self.w("::")
        elif k == "mb":
            self.w(self.paragraph((b,)))
        elif k == "toc":
            self.w(":toc:")
        elif k == "appendix":
            self.w(":appendix:")
        elif k == "bib":
            self.w(":bibliography: ::")
        elif k == "raw":
            self.w(b[1])
        else:
            raise ValueError(k)

    def blocks(self, blocks):
        self.depth += 1
        for b in blocks:
            self.block(b)
            self.gap()
        self.depth -= 1

    def doc(self, d):
        _, meta, blocks, bib = d
        self.w(":rsm:")
        if mget(meta, "title") and not self.lay.short:
            # the heading is the other form of this title
            self.w("# " + mget(meta, "title"))
            meta = tuple((k, v) for k, v in meta if k != "title")
        self.meta(meta)
        self.gap()
        self.depth -= 1
        self.blocks(blocks)
        self.depth += 1
        self.w("::")
        if bib:
            self.gap()
            self.w(":bibtex:")
            self.gap()
            for kind, label, pairs in bib:
                self.lines.append(f"@{kind}{{{label},")
                for k, v in pairs:
                    self.lines.append(f"  {k}={{{v}}},")
                self.lines.append("}")
                self.gap()
            self.w("::")
        return "\n".join(self.lines) + "\n"


def emit(d, lay=DEFAULT):
    return Emitter(lay).doc(d)


# convenience constructors -------------------------------------------------------------
def T(s):
    return ("t", s)


def P(*inl, meta=()):
    return ("p", tuple(T(x) if isinstance(x, str) else x for x in inl), tuple(meta))


def H(level, title, **meta):
    return ("head", level, title, tuple(meta.items()))


def doc(*blocks, meta=(), bib=()):
    return ("doc", tuple(meta), tuple(blocks), tuple(bib))
