From b4c580ef57156c00673aede7c7a19ea9f47d094b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:36 +0000
Subject: [PATCH 01/59] fix: give :suppose: and :wlog: constructs their
 keywords

---
 rsm/nodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 669f1ae..28a8c3a 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -1186,6 +1186,8 @@ class Construct(NodeWithChildren):
         "claimblock": "⊢",
         "qed": "QED",
         "st": "SUCH THAT",
+        "suppose": "SUPPOSE",
+        "wlog": "WLOG",
     }
 
     def __init__(self, kind: str = "", **kwargs: Any):
-- 
2.43.0


From 0fda681e0e8aec93f49f5d4ebc5cf4b6c2d2aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 02/59] fix: parse :exercise:, :problem: and :porism: as their
 own theorem kinds

---
 rsm/tsparser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 71bd272..361decb 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -264,6 +264,7 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "definition": nodes.Definition,
     "draft": nodes.Draft,
     "example": nodes.Example,
+    "exercise": nodes.Exercise,
     "item": nodes.Item,
     "itemize": nodes.Itemize,
     "caption": nodes.Caption,
@@ -279,6 +280,8 @@ CST_TYPE_TO_AST_TYPE: dict[str, Callable] = {
     "prev2": nodes.PendingPrev,
     "prev3": nodes.PendingPrev,
     "previous": nodes.PendingPrev,
+    "porism": nodes.Porism,
+    "problem": nodes.Problem,
     "proof": nodes.Proof,
     "proposition": nodes.Proposition,
     "ref": nodes.PendingReference,
@@ -548,6 +551,10 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
         elif cst_node.type in ["block", "inline"]:
             tag = cst_node.child_by_field_name("tag")
             ast_node_type = tag.type
+            # Some theorem-like tags share the "theorem" type in the grammar, so the tag
+            # text is the only thing that tells them apart.
+            if ast_node_type == "theorem":
+                ast_node_type = tag.text.decode("utf-8").strip(":")
             skip_these_ids.add(tag.id)
 
         else:
-- 
2.43.0


From a3c657a82894063268e0e1d2c6be2ffedb417abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:24 +0000
Subject: [PATCH 03/59] fix: do not print 'None' as the number of an unnumbered
 figure or table

---
 rsm/translator.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index e487f5d..fd94318 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1081,6 +1081,11 @@ class Translator:
             [AppendNodeTag(node, "span"), AppendTextAndDefer("[ ", " ]")]
         )
 
+    @staticmethod
+    def _float_name(node: nodes.Figure | nodes.Table) -> str:
+        # Unnumbered floats have no number to show.
+        return f"{node.__class__.__name__} {node.full_number or ''}".strip()
+
     def visit_figure(self, node: nodes.Figure) -> EditCommand:
         return AppendBatchAndDefer(
             [
@@ -1091,7 +1096,7 @@ class Translator:
                         id_=node.label,
                         classes=[],
                         src=node.path,
-                        alt=f"{node.__class__.__name__} {node.full_number}.",
+                        alt=f"{self._float_name(node)}.",
                         onload=""
                         if node.scale == 1.0
                         else f"this.width*={node.scale};",
@@ -1104,7 +1109,7 @@ class Translator:
         parent = node.parent
         caption = AppendOpenCloseTag(
             tag="span",
-            content=f"{parent.__class__.__name__} {parent.full_number}. ",
+            content=f"{self._float_name(parent)}. ",
             classes=["label"],
             newline_inner=False,
             newline_outer=False,
-- 
2.43.0


From d80b1e8ab986392ec46f7755db1c38843e5c0c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:44 +0000
Subject: [PATCH 04/59] fix: letter only the sections of an appendix, and go on
 past Z

---
 rsm/transformer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eee8528..e92c549 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -26,7 +26,7 @@ place is of utmost importance.
 
 import logging
 from collections import defaultdict
-from itertools import count
+from itertools import count, product
 from string import ascii_uppercase
 from typing import Generator, Optional, Type
 
@@ -41,6 +41,13 @@ class RSMTransformerError(Exception):
     pass
 
 
+def _letters() -> Generator[str, None, None]:
+    """Generate A, B, ..., Z, AA, AB, ..."""
+    for length in count(start=1):
+        for letters in product(ascii_uppercase, repeat=length):
+            yield "".join(letters)
+
+
 class Transformer:
     """Apply transformations to the abstract syntax tree.
 
@@ -276,7 +283,8 @@ class Transformer:
         within_appendix = False
         for node in self.tree.traverse():
             if isinstance(node, nodes.Appendix):
-                counts[nodes.Manuscript] = defaultdict(lambda: iter(ascii_uppercase))
+                # Only the sections are lettered; everything else keeps its count.
+                counts[nodes.Manuscript][nodes.Section] = _letters()
                 within_appendix = True
                 continue
             if isinstance(node, (nodes.Proof, nodes.Subproof)):
-- 
2.43.0


From bbb244b7db7217f4c108c1c8b4e31a8b70d6cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/59] fix: do not repeat the id of a figure in its image

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index fd94318..6c58b4f 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1093,7 +1093,7 @@ class Translator:
                 AppendText(
                     _make_tag(
                         "img",
-                        id_=node.label,
+                        id_="",  # the label identifies the figure tag
                         classes=[],
                         src=node.path,
                         alt=f"{self._float_name(node)}.",
-- 
2.43.0


From 7215ea0ef00674f81ece5c6dd05c12cacd7adc4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/59] fix: keep the ids of citations clear of the user's
 labels

---
 rsm/transformer.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index e92c549..0cf1727 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -192,7 +192,12 @@ class Transformer:
             nodes.PendingPrev,
         ]
 
-        counter = count()
+        # Labels chosen by the user must not clash with those given to citations.
+        cite_labels = (
+            label
+            for label in (f"cite-{n}" for n in count())
+            if label not in self.labels_to_nodes
+        )
         for pending in self.tree.traverse(condition=lambda n: type(n) in classes):
             if isinstance(pending, nodes.PendingReference):
                 target = self._label_to_node(pending.target)
@@ -211,7 +216,7 @@ class Transformer:
                     for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
-                cite.label = f"cite-{next(counter)}"
+                cite.label = next(cite_labels)
                 pending.replace_self(cite)
                 for tgt in targets:
                     tgt.backlinks.append(cite.label)
-- 
2.43.0


From b25254443b64346aaf69103d34c652f09143a7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:50 +0000
Subject: [PATCH 07/59] fix: escape manuscript text that HTML would take for
 markup

---
 rsm/builder.py    |  4 +++-
 rsm/translator.py | 53 ++++++++++++++++++++++++++++-------------------
 2 files changed, 35 insertions(+), 22 deletions(-)

diff --git a/rsm/builder.py b/rsm/builder.py
index 3c8552f..e8b85ad 100644
--- a/rsm/builder.py
+++ b/rsm/builder.py
@@ -1,5 +1,6 @@
 """Input: HTML body -- Output: WebManuscript."""
 
+import html
 import logging
 import re
 from abc import ABC, abstractmethod
@@ -45,7 +46,8 @@ class BaseBuilder(ABC):
 
     def find_required_assets(self) -> None:
         self.required_assets = [
-            Path(x) for x in re.findall(r'src="(.*?)"', str(self.body))
+            Path(html.unescape(x))
+            for x in re.findall(r'<[^>]*?\ssrc="(.*?)"', str(self.body))
         ]
 
 
diff --git a/rsm/translator.py b/rsm/translator.py
index 6c58b4f..9d54afc 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -128,6 +128,16 @@ class RSMTranslatorError(Exception):
     pass
 
 
+def _escape(text: Any) -> str:
+    """Escape whatever HTML would take for a tag or a character reference."""
+    text = re.sub(r"&(?=[#\w])", "&amp;", str(text))
+    return re.sub(r"<(?=[a-zA-Z/!?])", "&lt;", text)
+
+
+def _escape_attr(value: Any) -> str:
+    return _escape(value).replace('"', "&quot;")
+
+
 def _make_tag(
     tag: str,
     id_: str,
@@ -138,15 +148,15 @@ def _make_tag(
 ) -> str:
     text = f"<{tag}"
     if id_:
-        text += f' id="{id_}"'
+        text += f' id="{_escape_attr(id_)}"'
     if classes:
         classes = " ".join(classes)
-        text += f' class="{classes}"'
+        text += f' class="{_escape_attr(classes)}"'
     tabindex = 0 if is_selectable else None
     items = []
     if kwargs or tabindex is not None:
         if kwargs:
-            items += [f'{k}="{v}"' for k, v in kwargs.items() if v]
+            items += [f'{k}="{_escape_attr(v)}"' for k, v in kwargs.items() if v]
         if tabindex is not None:
             items += [f"tabindex={tabindex}"]
     if nodeid is not None:
@@ -603,7 +613,7 @@ class Translator:
             ]
         )
         if node.title:
-            batch.items.append(AppendHeading(1, node.title))
+            batch.items.append(AppendHeading(1, _escape(node.title)))
         return batch
 
     def visit_author(self, node: nodes.Author) -> EditCommand:
@@ -611,7 +621,7 @@ class Translator:
             if node.email:
                 email = (
                     _make_tag("a", id_="", classes="", href=f"mailto:{node.email}")
-                    + node.email
+                    + _escape(node.email)
                     + "</a>"
                 )
             else:
@@ -621,8 +631,8 @@ class Translator:
                     AppendNodeTag(node),
                     AppendOpenTagManualClose("div", classes=["paragraph"]),
                     *[
-                        AppendParagraph(str(x))
-                        for x in [node.name, node.affiliation, email]
+                        AppendParagraph(x)
+                        for x in [_escape(node.name), _escape(node.affiliation), email]
                         if x
                     ],
                     AppendText("</div>"),
@@ -645,11 +655,11 @@ class Translator:
         if node.keywords:
             text = ", ".join(node.keywords)
             batch.items.append(
-                AppendParagraph(f"Keywords: {text}", classes=["keywords"])
+                AppendParagraph(f"Keywords: {_escape(text)}", classes=["keywords"])
             )
         if node.msc:
             text = ", ".join(node.msc)
-            batch.items.append(AppendParagraph(f"MSC: {text}", classes=["msc"]))
+            batch.items.append(AppendParagraph(f"MSC: {_escape(text)}", classes=["msc"]))
 
         # For documentation: if a visit_* method returns a command with defers = True,
         # then the corresponding leave_* method MUST MUST MUST call leave_node(node) and
@@ -699,7 +709,7 @@ class Translator:
         if node.title:
             items.append(
                 AppendOpenCloseTag(
-                    tag="span", content=f"{node.title}.", classes=["pg-label"]
+                    tag="span", content=f"{_escape(node.title)}.", classes=["pg-label"]
                 )
             )
 
@@ -716,7 +726,7 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "section"),
-                AppendHeading(node.level, heading),
+                AppendHeading(node.level, _escape(heading)),
             ]
         )
 
@@ -818,7 +828,7 @@ class Translator:
             classes = ["highlight", node.lang]
             code = highlight_code(node.text, node.lang)
         else:
-            code = node.text
+            code = _escape(node.text)
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
@@ -851,13 +861,13 @@ class Translator:
         )
 
     def visit_text(self, node: nodes.Text) -> EditCommand:
-        return AppendText(node.text)
+        return AppendText(_escape(node.text))
 
     def visit_error(self, node: nodes.Error) -> EditCommand:
         return AppendBatchAndDefer(
             [
                 AppendNodeTag(node, "span", newline_inner=False, newline_outer=False),
-                AppendText(node.text),
+                AppendText(_escape(node.text)),
             ]
         )
 
@@ -905,7 +915,7 @@ class Translator:
                 classes=classes + (additional_classes or []),
                 href=href_text,
             )
-            + reftext
+            + _escape(reftext)
             + "</a>"
         )
         return tag
@@ -1016,7 +1026,7 @@ class Translator:
                 for idx, t in enumerate(node.targets)
             ]
             text = ", ".join(tags)
-            text = f'<span id="{node.label}">{text}</span>'
+            text = f'{_make_tag("span", node.label, [])}{text}</span>'
         return AppendText(f"[{text}]")
 
     def visit_bibliography(self, node: nodes.Bibliography) -> EditCommand:
@@ -1046,7 +1056,7 @@ class Translator:
             items.append(node.year)
         else:
             logger.warning(f"Bibitem {node.label} has no year")
-        text = ". ".join([i.strip(".") for i in items]) + "."
+        text = _escape(". ".join([i.strip(".") for i in items]) + ".")
         if node.doi:
             a_tag = _make_tag(
                 "a",
@@ -1242,7 +1252,7 @@ class HandrailsTranslator(Translator):
     def _hr_menu_label(self, label: str) -> str:
         return f"""
   <div class="hr-menu-label">
-    <span class="hr-menu-item-text">{label}</span>
+    <span class="hr-menu-item-text">{_escape(label)}</span>
   </div>"""
 
     def _make_menu_item(self, classes: list[str], icon: str, text: str) -> str:
@@ -1574,7 +1584,7 @@ class HandrailsTranslator(Translator):
         )
 
     def _make_source_div(self):
-        return AppendText(text=f'<div class="rsm-source hide">{self.tree.src}</div>')
+        return AppendText(text=f'<div class="rsm-source hide">{_escape(self.tree.src)}</div>')
 
     def _make_minimap(
         self, node: nodes.Contents, follow: str, with_ids: bool = False
@@ -1585,10 +1595,11 @@ class HandrailsTranslator(Translator):
         for ref in node.traverse(nodeclass=nodes.Reference):
             cy = 20 + (24 + 8) * num
             r = radii[type(ref.target)]
-            id_ = f"mm-{ref.target.label}"
+            label = _escape_attr(ref.target.label)
+            id_ = f"mm-{label}"
             if with_ids:
                 circles.append(
-                    f'<a href="#{ref.target.label}" class="reference" tabindex="-1">'
+                    f'<a href="#{label}" class="reference" tabindex="-1">'
                     f'<circle id="{id_}" cx="16" cy="{cy}" r="{r}" data-pos="{cy}" />'
                 )
             else:
-- 
2.43.0


From 458154be8cfd696e98c94a2b4a9af6cac5e46372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:31 +0000
Subject: [PATCH 08/59] fix: display math outside of a paragraph, or marked as
 a claim, closes no <p> tag

---
 rsm/translator.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 9d54afc..8dd8093 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -699,7 +699,7 @@ class Translator:
         #
         # A paragraph cannot start with a mathblock.
         items: list[EditCommand] = [AppendNodeTag(node, "div")]  #
-        if node.first_of_type(nodes.MathBlock):
+        if node.first_of_type((nodes.MathBlock, nodes.ClaimBlock)):
             items.append(AppendOpenTagManualClose(tag="p", newline_inner=False))
         else:
             items.append(AppendOpenTag(tag="p", newline_inner=False))
@@ -777,14 +777,19 @@ class Translator:
             ]
         )
 
+    @staticmethod
+    def _breaks_paragraph(node: nodes.Node) -> bool:
+        # Only visit_paragraph() opens a <p> tag, so a display block anywhere else (e.g.
+        # in an Item or a Statement) has nothing to close.
+        return type(node.parent) is nodes.Paragraph
+
     def visit_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-        assert isinstance(node.parent, nodes.Paragraph)
         return AppendBatchAndDefer(
             [
                 # A paragraph that contains a mathblock cannot _start_ with a mathblock,
                 # so this mathblock must always contain some previous siblings that must
                 # be enclosed in <p> tags.  (See comment in visit_paragraph().)
-                AppendText("</p>"),
+                AppendText("</p>" if self._breaks_paragraph(node) else ""),
                 # This is the actual tag corresponding to the mathblock.
                 AppendNodeTag(node, "div"),
                 # The contents of a mathblock must be enclosed in '$$' and '$$' due to
@@ -797,9 +802,9 @@ class Translator:
         # See also the comment in visit_paragraph().
         batch = self.leave_node(node)
 
-        # The paragraph-specific logic only applies when the parent is a BaseParagraph
+        # The paragraph-specific logic only applies when the parent is a Paragraph
         # With grammar changes, MathBlocks can now have other types of parents
-        if not isinstance(node.parent, nodes.BaseParagraph):
+        if not self._breaks_paragraph(node):
             return batch
 
         # In case this mathblock is the last child of the paragraph, there is nothing
@@ -931,7 +936,16 @@ class Translator:
         )
 
     def visit_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
-        return AppendNodeTag(node)
+        return AppendBatchAndDefer(
+            [
+                AppendText("</p>" if self._breaks_paragraph(node) else ""),
+                AppendNodeTag(node),
+            ]
+        )
+
+    def leave_claimblock(self, node: nodes.ClaimBlock) -> EditCommand:
+        # Same as any other mathblock.
+        return Translator.leave_mathblock(self, node)
 
     def _make_title_node(
         self, label: str, desc: str = "", types: list = ["hr-label"]
@@ -1838,9 +1852,10 @@ class HandrailsTranslator(Translator):
             collapse_in_hr=False,
             menu_label="Equation" if node.nonum else node.long_reftext,
         )
-        batch.items.insert(0, AppendText("</p>"))
+        batch.items[0].classes += ["hr-hidden", "hr-offset"]
+        if self._breaks_paragraph(node):
+            batch.items.insert(0, AppendText("</p>"))
         batch.items.append(AppendTextAndDefer("$$\n", "\n$$"))
-        batch.items[1].classes += ["hr-hidden", "hr-offset"]
         return batch
 
     def leave_mathblock(self, node: nodes.MathBlock) -> EditCommand:
-- 
2.43.0


From 85caa97d81d5a8d80b64dbea1ed6b513ebdc5db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 09/59] fix: keep the space between two inline tags

---
 rsm/tsparser.py | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 361decb..542f36a 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -346,6 +346,20 @@ def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     return pairs
 
 
+INLINE_TYPES = {
+    nodes.Code,
+    nodes.Construct,
+    nodes.Draft,
+    nodes.Math,
+    nodes.Note,
+    nodes.PendingCite,
+    nodes.PendingPrev,
+    nodes.PendingReference,
+    nodes.Span,
+    nodes.URL,
+}
+
+
 def _normalize_text(root: TSNode) -> str:
     if root is None:
         return ""
@@ -416,11 +430,19 @@ def _normalize_text(root: TSNode) -> str:
 
         # Finally we handle the space between non-Text children of a paragraph, for
         # example two Spans together, or a Span followed by a Construct.  In all cases,
-        # we simply insert a single space between them.
+        # we simply insert a single space between them.  Around any other kind of inline
+        # node, we do so only if the source has some space there.
         classes = [nodes.Span, nodes.Construct, nodes.Math]
         sibling = node.next_sibling()
         if sibling and type(node) in classes and type(sibling) in classes:
             node.replace_self([node, nodes.Text(" ")])
+        elif (
+            sibling
+            and type(node) in INLINE_TYPES
+            and type(sibling) in INLINE_TYPES
+            and node.end_point != sibling.start_point
+        ):
+            node.replace_self([node, nodes.Text(" ")])
 
         # Manage escaped characters.
         if isinstance(node, nodes.Text) and not node.asis:
-- 
2.43.0


From 91a2392cde9d5587c8da399ae2ce8c0ded8b0d80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:07 +0000
Subject: [PATCH 10/59] fix: pass the options of FullBuildApp on to the right
 parameters

---
 rsm/app.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 19c3bee..2d99ec3 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -242,7 +242,14 @@ class FullBuildApp(ProcessorApp):
         run_linter: bool = False,
     ):
         super().__init__(
-            srcpath, plain, loglevel, log_format, log_time, handrails, run_linter
+            srcpath,
+            plain,
+            loglevel,
+            log_format,
+            log_time,
+            log_lineno,
+            handrails=handrails,
+            run_linter=run_linter,
         )
         self.add_task(Task("builder", b := builder.FullBuilder(), b.build))
         self.add_task(Task("writer", w := writer.Writer(), w.write))
@@ -302,6 +309,7 @@ def make(
     return FullBuildApp(
         srcpath=path,
         plain=source,
+        handrails=handrails,
         run_linter=lint,
         loglevel=loglevel,
         log_format=log_format,
-- 
2.43.0


From cd9415ba8d669c4a4412fc5e71fd7bfbc2b50c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:28 +0000
Subject: [PATCH 11/59] fix: format log records that have a start point but no
 end point

---
 rsm/rsmlogger.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a7a613c..a160d8f 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -48,7 +48,8 @@ class RSMFormatter(logging.Formatter):
     time = grey + "%(asctime)s " + reset
     name = blue + "%(name)s " + reset
     msgformat = "%(levelname)-3s | %(message)s" + reset
-    point = " | (%(start_row)d, %(start_col)d) - (%(end_row)d, %(end_col)d) | " + reset
+    start_point = " | (%(start_row)d, %(start_col)d)"
+    end_point = " - (%(end_row)d, %(end_col)d)"
     suffix = grey + " (%(filename)s:%(lineno)d)" + reset
 
     COLORS = {
@@ -70,12 +71,18 @@ class RSMFormatter(logging.Formatter):
             + self.name
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
-            + (self.point if hasattr(record, "start_row") else "")
+            + self._point(record)
             + self.suffix
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
 
+    def _point(self, record: logging.LogRecord) -> str:
+        if not hasattr(record, "start_row"):
+            return ""
+        end_point = self.end_point if hasattr(record, "end_row") else ""
+        return self.start_point + end_point + " | " + self.reset
+
 
 class JSONFormatter(logging.Formatter):
     def __init__(self, log_time: bool = True, log_lineno: bool = True, *args: Any, **kwargs: Any) -> None:
-- 
2.43.0


From 0830299ff084a9ee38d1f0b775ba300926ea88dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:36 +0000
Subject: [PATCH 12/59] fix: let the default log format honor --log-no-lineno

---
 rsm/rsmlogger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/rsmlogger.py b/rsm/rsmlogger.py
index a160d8f..dc4f51e 100644
--- a/rsm/rsmlogger.py
+++ b/rsm/rsmlogger.py
@@ -72,7 +72,7 @@ class RSMFormatter(logging.Formatter):
             + self.COLORS.get(record.levelno, self.grey)
             + self.msgformat
             + self._point(record)
-            + self.suffix
+            + (self.suffix if self.log_lineno else "")
         )
         formatter = logging.Formatter(fmt, datefmt="%H:%M:%S")
         return formatter.format(record)
-- 
2.43.0


From 43fcab60a51c03a296c67f43d9e79abb732e0dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 13/59] fix: forget the labels of the previous manuscript when
 transforming another

---
 rsm/transformer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 0cf1727..033e721 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -171,6 +171,7 @@ class Transformer:
         executed before all other ones.
 
         """
+        self.labels_to_nodes = {}
         for node in self.tree.traverse(condition=lambda n: n.label):
             if node.label in self.labels_to_nodes:
                 logger.warning(f"Duplicate label {node.label}, using first encountered")
-- 
2.43.0


From 957871fa3faae7fe158a438641e422a66e15049e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 14/59] fix: translating a tree leaves it ready to be
 translated again

---
 rsm/translator.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 8dd8093..3dce166 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -719,7 +719,8 @@ class Translator:
         return AppendNodeTag(node)
 
     def visit_section(self, node: nodes.Section) -> EditCommand:
-        node.types.insert(0, f"level-{node.level}")
+        if (level := f"level-{node.level}") not in node.types:
+            node.types.insert(0, level)
         heading = (
             f"{node.full_number}. {node.title}" if not node.nonum else f"{node.title}"
         )
@@ -994,7 +995,7 @@ class Translator:
 
     def visit_proof(self, node: nodes.Proof) -> EditCommandBatch:
         last = node.last_of_type(nodes.Step)
-        if last:
+        if last and "last" not in last.types:
             last.types.append("last")
 
         classname = node.__class__.__name__.lower()
@@ -1836,9 +1837,14 @@ class HandrailsTranslator(Translator):
                 newline_outer=False,
             ),
         )
-        sib.text = sib.text[1:]
         return batch
 
+    def visit_text(self, node: nodes.Text) -> EditCommand:
+        # See the comment in visit_math().
+        if isinstance(node.prev_sibling(), nodes.Math) and node.text.startswith("."):
+            return AppendText(_escape(node.text[1:]))
+        return super().visit_text(node)
+
     def leave_math(self, node: nodes.Math) -> EditCommand:
         batch = self.leave_node(node)
         if not getattr(node, "_followed_by_dot", False):
-- 
2.43.0


From d715d9f57490b47320e5f21d81020402aee26a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 15/59] fix: collapsing a handrail changes its own icon, not
 one inside of it

---
 rsm/static/handrails.js | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8b584ff..f304913 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -67,11 +67,20 @@ export function toggleHandrail(target) {
 };
 
 
+// The icons of this very handrail, as opposed to those of the handrails inside of it.
+function ownIcon(hr, item, icon) {
+  return hr.querySelector(`
+    & > .hr-collapse-zone > .hr-collapse > .icon.${icon},
+    & > .hr-menu-zone > .hr-menu > .hr-menu-item.${item} > .icon.${icon}
+  `);
+}
+
+
 function openHandrail(hr) {
   hr.classList.remove("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.remove("hide"); });
-  const icon = hr.querySelector("& .icon.expand");
+  const icon = ownIcon(hr, "collapse-subproof", "expand");
   if (!icon) return;
   icon.classList.remove("expand");
   icon.classList.add("collapse");
@@ -89,7 +98,7 @@ function closeHandrail(hr) {
   hr.classList.add("hr-collapsed");
   const rest = getRest(hr);
   rest.forEach(el => { el.classList.add("hide"); });
-  const icon = hr.querySelector("& .icon.collapse");
+  const icon = ownIcon(hr, "collapse-subproof", "collapse");
   if (!icon) return;
   icon.classList.remove("collapse");
   icon.classList.add("expand");
@@ -125,7 +134,7 @@ export function collapseAll(target, withinSubproof = true) {
   }
 
   const hr = target.closest(".hr");
-  const ex_icon = hr.querySelector("& .icon.expand-all");
+  const ex_icon = ownIcon(hr, "collapse-steps", "expand-all");
   if (ex_icon) {
     hr.querySelectorAll(qry).forEach(st => openHandrail(st));
     ex_icon.classList.remove("expand-all");
@@ -142,7 +151,7 @@ export function collapseAll(target, withinSubproof = true) {
     return;
   }
 
-  const co_icon = hr.querySelector("& .icon.collapse-all");
+  const co_icon = ownIcon(hr, "collapse-steps", "collapse-all");
   if (co_icon) {
     hr.querySelectorAll(qry).forEach(st => closeHandrail(st));
     co_icon.classList.remove("collapse-all");
-- 
2.43.0


From cfd7255cccca4ce80e4ded33572d6acf8f085904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 16/59] fix: the link to a heading points to what the heading
 belongs to

---
 rsm/static/handrails.js | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index f304913..8d6a203 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -178,9 +178,9 @@ async function copyLink(target) {
   if (!hr.classList.contains("heading")) {
     anchor = hr.id;
   } else {
-    const section = hr.closest("section");
-    if (!section.classList.contains("level-1")) {
-      anchor = section.id;
+    const parent = hr.parentElement;
+    if (!parent.classList.contains("level-1")) {
+      anchor = parent.id;
     } else {
       needs_anchor = false;
     }
@@ -189,7 +189,7 @@ async function copyLink(target) {
     launchToast("Could not copy link.", "error");
     return;
   }
-  link = `${url}#${anchor}`
+  link = needs_anchor ? `${url}#${anchor}` : url;
   try {
     await navigator.clipboard.writeText(link);
     launchToast("Link copied to clipboard.", "success");
-- 
2.43.0


From 05108bb05ccdb7371c4ba889a9ee28a8b838060d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 17/59] fix: make the H key go back to the top

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index b669d10..5447697 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -25,7 +25,7 @@ export function setup(root) {
 
   // Navigation: back to top
   root.addEventListener('keydown', (event) => {
-    if (event.key == "H") { event.stopPropagation(); focusTop(); };
+    if (event.key == "H") { event.stopPropagation(); focusTop(root); };
   });
 
   // Basic actions on the currently focused element
-- 
2.43.0


From 5c9a741fa3df2beb744f44cd3694ad12c6f97698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 18/59] fix: collapse all from the keyboard acts on the same
 steps as the menu

---
 rsm/static/keyboard.js | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 5447697..51cc441 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -108,7 +108,7 @@ function executeActiveMenuItem(el) {
       toggleHandrail(el);
       break;
     case "collapse-steps":
-      collapseAll(el);
+      collapseAll(el, el.classList.contains("step"));
       break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
@@ -262,8 +262,7 @@ function toggleCollapse(el) {
 function toggleCollapseAll(el) {
   if (!el.classList.contains("hr")) return;
   const collAll = el.querySelector(`
-        & > .hr-menu-zone .collapse-all:not(.disabled),
-        & > .hr-menu-zone .expand-all:not(.disabled)
+        & > .hr-menu-zone .collapse-steps:not(.disabled)
     `);
   const withinSubproof = el.classList.contains("step");
   if (collAll) collapseAll(el, withinSubproof);
-- 
2.43.0


From 609b88cb6ddf024859abfecb3c8bea948aac344c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 19/59] fix: arrow keys only move within an open menu

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 51cc441..628dd7d 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -118,7 +118,7 @@ function executeActiveMenuItem(el) {
 
 function menuUpOrDown(el, direction) {
   const menu = el.querySelector("& > .hr-menu-zone");
-  if (!getComputedStyle(menu).display == "none") return;
+  if (!menu || getComputedStyle(menu).display == "none") return;
 
   const qry = `
       & > .hr-menu > .hr-menu-item:hover,
-- 
2.43.0


From 5cedb8f3aacd6eb24cfe701bf2f254f07172eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 20/59] fix: h and l focus the top element when nothing is
 focused

---
 rsm/static/keyboard.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 628dd7d..6d2626e 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -151,6 +151,7 @@ function focusUpOrDown(direction, root) {
 
   // If not focused on anything, just focus the top element.
   if (index == -1) {
+    focusableElements[0].focus();
     maybeScrollToMiddle(focusableElements[0], direction);
     return;
   }
-- 
2.43.0


From 9828319ab5e2dbabfbdcd6ea686ac12d668ec13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:45 +0000
Subject: [PATCH 21/59] fix: scrolling a manuscript with no table of contents
 raises no error

---
 rsm/static/minimap.js | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 491963e..0feabbe 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -20,6 +20,7 @@ export function setup() {
   window.addEventListener('scroll', () => {
     const toc_mm = document.querySelector(".toc-wrapper > .minimap");
     const float_mm = document.querySelector(".float-minimap-wrapper > .minimap");
+    if (!toc_mm || !float_mm) return;
     if (withinView(toc_mm, false)) {
       float_mm.classList.add("hide");
     } else {
-- 
2.43.0


From 7f247a86729cb4b87f1965e277030a2a4a55e68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 22/59] fix: render a bibliography entry that has no author,
 title or year

---
 rsm/translator.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 3dce166..c1218e4 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1054,9 +1054,17 @@ class Translator:
         )
 
     def visit_bibitem(self, node: nodes.Bibitem) -> EditCommand:
-        items = [node.author, f'"{node.title}"']
+        items = []
         if node.number:
-            items.insert(0, f"{node.number}.")
+            items.append(f"{node.number}.")
+        if node.author:
+            items.append(node.author)
+        else:
+            logger.warning(f"Bibitem {node.label} has no author")
+        if node.title:
+            items.append(f'"{node.title}"')
+        else:
+            logger.warning(f"Bibitem {node.label} has no title")
         if node.kind == "article":
             if node.journal:
                 items.append(node.journal)
@@ -1067,8 +1075,8 @@ class Translator:
                 items.append(node.publisher)
             else:
                 logger.warning(f"Bibitem {node.label} has no publisher")
-        if node.year:
-            items.append(node.year)
+        if node.year and node.year != -1:
+            items.append(str(node.year))
         else:
             logger.warning(f"Bibitem {node.label} has no year")
         text = _escape(". ".join([i.strip(".") for i in items]) + ".")
-- 
2.43.0


From a8d0856df9c393a8703cf4bd91311bad9439a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:58 +0000
Subject: [PATCH 23/59] fix: warn about syntax errors inside of metadata
 instead of crashing

---
 rsm/tsparser.py | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 542f36a..36b0564 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -334,13 +334,36 @@ def _parse_metakey_bool(cst_key: TSNode, _: TSNode) -> tuple[str, bool]:
     return key, True
 
 
+def _warn_about_error(node: TSNode) -> None:
+    (start_row, start_col), (end_row, end_col) = node.start_point, node.end_point
+    logger.warning(
+        "The CST contains errors.",
+        extra=dict(
+            start_row=start_row,
+            start_col=start_col,
+            end_row=end_row,
+            end_col=end_col,
+        ),
+    )
+
+
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
+    for error in [c for c in node.named_children if c.type == "ERROR"]:
+        _warn_about_error(error)
     for pair in [c for c in node.named_children if c.type.endswith("pair")]:
-        if len(pair.named_children) == 1:  # bool meta key
-            cst_key, cst_val = pair.named_children[0], None
+        children = []
+        for child in pair.named_children:
+            if child.type == "ERROR":
+                _warn_about_error(child)
+            elif child.type != "comment":
+                children.append(child)
+        if len(children) == 1:  # bool meta key
+            cst_key, cst_val = children[0], None
+        elif len(children) == 2:
+            cst_key, cst_val = children
         else:
-            cst_key, cst_val = pair.named_children
+            continue
         key, val = globals()[f"_parse_{cst_key.type}"](cst_key, cst_val)
         pairs[key] = val
     return pairs
@@ -593,17 +616,9 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             elif isinstance(ast_node, nodes.Text):
                 ast_node.text = cst_node.text.decode("utf-8")
         elif ast_node_type == "ERROR":
+            _warn_about_error(cst_node)
             start_row, start_col = cst_node.start_point
             end_row, end_col = cst_node.end_point
-            logger.warning(
-                "The CST contains errors.",
-                extra=dict(
-                    start_row=start_row,
-                    start_col=start_col,
-                    end_row=end_row,
-                    end_col=end_col,
-                ),
-            )
             ast_node = nodes.Error(
                 f"[CST error at ({start_row}, {start_col}) - ({end_row}, {end_col})]",
                 start_point=cst_node.start_point,
-- 
2.43.0


From bda1e3a8cd01848d506e35d3dc67c4329463b6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:06 +0000
Subject: [PATCH 24/59] fix: report the citation of something that is not a
 bibliography item

---
 rsm/transformer.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index 033e721..bb94d56 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -186,6 +186,13 @@ class Transformer:
             logger.warning(f'Reference to nonexistent label "{label}"')
             return default(f'[unknown label "{label}"]')
 
+    def _label_to_bibitem(self, label: str) -> nodes.Bibitem:
+        target = self._label_to_node(label, nodes.UnknownBibitem)
+        if not isinstance(target, nodes.Bibitem):
+            logger.warning(f'Citation of "{label}", which is not a bibliography item')
+            return nodes.UnknownBibitem(f'[unknown label "{label}"]')
+        return target
+
     def resolve_pending_references(self) -> None:
         classes = [
             nodes.PendingReference,
@@ -213,8 +220,7 @@ class Transformer:
                     )
             elif isinstance(pending, nodes.PendingCite):
                 targets = [
-                    self._label_to_node(label, nodes.UnknownBibitem)
-                    for label in pending.targetlabels
+                    self._label_to_bibitem(label) for label in pending.targetlabels
                 ]
                 cite = nodes.Cite(targets=targets)
                 cite.label = next(cite_labels)
-- 
2.43.0


From dcd0ebf20ffc9aacfa8a22df24c8221633ff6ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:14 +0000
Subject: [PATCH 25/59] fix: give every theorem kind the class theorem in the
 handrails view too

---
 rsm/translator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index c1218e4..20cb941 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1757,7 +1757,9 @@ class HandrailsTranslator(Translator):
 
     def visit_theorem(self, node: nodes.Theorem) -> EditCommand:
         batch = super().visit_theorem(node)
-        hr = self._replace_node_with_handrails(node, additional_classes=["hr-labeled"])
+        hr = self._replace_node_with_handrails(
+            node, additional_classes=["theorem", "hr-labeled"]
+        )
         hr.items += batch.items[1:]
         return hr
 
-- 
2.43.0


From 6f5206ddea83efec42bbacc79b67466a6c173499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 26/59] fix: show code in a language that cannot be highlighted

---
 rsm/translator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 20cb941..2897e80 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -117,6 +117,7 @@ from collections import namedtuple
 from typing import Any, Callable, Iterable, Literal, Optional
 
 from icecream import ic
+from pygments.util import ClassNotFound
 
 from . import nodes
 from .util import highlight_code
@@ -832,7 +833,11 @@ class Translator:
         classes = []
         if node.lang:
             classes = ["highlight", node.lang]
-            code = highlight_code(node.text, node.lang)
+            try:
+                code = highlight_code(node.text, node.lang)
+            except ClassNotFound:
+                logger.warning(f'Unknown language "{node.lang}"')
+                code = _escape(node.text)
         else:
             code = _escape(node.text)
         return AppendBatchAndDefer(
-- 
2.43.0


From 0be927273c78aa5478dc1ec88c1319f677cac53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 27/59] fix: keep the link of a bibliography entry whose DOI
 contains >

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 2897e80..5dc6dcd 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -136,7 +136,7 @@ def _escape(text: Any) -> str:
 
 
 def _escape_attr(value: Any) -> str:
-    return _escape(value).replace('"', "&quot;")
+    return _escape(value).replace('"', "&quot;").replace(">", "&gt;")
 
 
 def _make_tag(
-- 
2.43.0


From aeab301a6950a861615ebcbc57505a08afcdf446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 28/59] fix: show no blank around a note or draft where the
 source has none

---
 rsm/translator.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 5dc6dcd..a416cb8 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -754,18 +754,25 @@ class Translator:
     def visit_note(self, node: nodes.Note) -> EditCommand:
         return AppendBatchAndDefer(
             [
-                AppendOpenTag("span", classes=["note"]),
+                AppendOpenTag(
+                    "span",
+                    classes=["note"],
+                    newline_inner=False,
+                    newline_outer=False,
+                ),
                 AppendOpenCloseTag(
                     "sup",
                     content=f'<a class="note__link">{node.full_number}</a>',
                     classes=["note__number"],
                     newline_inner=False,
+                    newline_outer=False,
                 ),
                 AppendOpenTag(
                     "span",
                     id=node.label,
                     classes=["note__content"],
                     newline_inner=False,
+                    newline_outer=False,
                 ),
             ]
         )
@@ -1116,7 +1123,10 @@ class Translator:
 
     def visit_draft(self, node: nodes.Draft) -> EditCommand:
         return AppendBatchAndDefer(
-            [AppendNodeTag(node, "span"), AppendTextAndDefer("[ ", " ]")]
+            [
+                AppendNodeTag(node, "span", newline_inner=False, newline_outer=False),
+                AppendTextAndDefer("[ ", " ]"),
+            ]
         )
 
     @staticmethod
-- 
2.43.0


From dcc854eba4c46aafe500a375f0818eb73e64b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:35 +0000
Subject: [PATCH 29/59] fix: render an author without metadata in the handrails
 view

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index a416cb8..c927bf0 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -640,7 +640,7 @@ class Translator:
                 ]
             )
         else:
-            return AppendNodeTag(node)
+            return AppendBatchAndDefer([AppendNodeTag(node)])
 
     def visit_abstract(self, node: nodes.Abstract) -> EditCommand:
         return AppendBatchAndDefer(
-- 
2.43.0


From 1146c2ab0bcf7d78b1d30f59e59c57472647f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:55 +0000
Subject: [PATCH 30/59] fix: braces in a custom reference text crash the
 rendering

---
 rsm/nodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 28a8c3a..ead0a8e 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -432,9 +432,9 @@ class Node:
 
     @property
     def reftext(self) -> str:
-        return self.reftext_template.format(
-            nodeclass=self.__class__.__name__, number=self.full_number
-        ).strip()
+        # The template may be the user's own text, so other braces in it mean nothing.
+        text = self.reftext_template.replace("{nodeclass}", self.__class__.__name__)
+        return text.replace("{number}", str(self.full_number)).strip()
 
     def traverse(
         self,
-- 
2.43.0


From 06e321a2380b28857ccc99881d8c60e05d0582cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:05 +0000
Subject: [PATCH 31/59] fix: the id of part of a citation could be one of the
 author's labels

---
 rsm/transformer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index bb94d56..eb06e4f 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -200,11 +200,12 @@ class Transformer:
             nodes.PendingPrev,
         ]
 
-        # Labels chosen by the user must not clash with those given to citations.
+        # Labels chosen by the user must not clash with those given to citations, nor
+        # with those of the parts of a citation (cite-0-0, cite-0-1, ...).
         cite_labels = (
             label
             for label in (f"cite-{n}" for n in count())
-            if label not in self.labels_to_nodes
+            if not any(f"{used}-".startswith(f"{label}-") for used in self.labels_to_nodes)
         )
         for pending in self.tree.traverse(condition=lambda n: type(n) in classes):
             if isinstance(pending, nodes.PendingReference):
-- 
2.43.0


From 920faa67c5edec8368305031e76f2a46b30fc228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:59 +0000
Subject: [PATCH 32/59] fix: content after a subproof failed an assertion
 instead of being reported

---
 rsm/transformer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/transformer.py b/rsm/transformer.py
index eb06e4f..472d3b4 100644
--- a/rsm/transformer.py
+++ b/rsm/transformer.py
@@ -283,7 +283,8 @@ class Transformer:
                 subproof = nodes.Subproof()
                 subproof.append(children[split_at_idx:])
             elif isinstance(children[split_at_idx], nodes.Subproof):
-                assert split_at_idx == len(children) - 1
+                if split_at_idx != len(children) - 1:
+                    raise RSMTransformerError("Found content after a step's subproof")
                 subproof = children[split_at_idx]
             else:
                 raise RSMTransformerError("How did we get here?")
-- 
2.43.0


From 3204bca0c11fe4c9b1b64a8af171f0c16fc5fc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:05 +0000
Subject: [PATCH 33/59] fix: time to number a proof step doubled with each
 level of nesting

---
 rsm/nodes.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index ead0a8e..4c0754f 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -426,8 +426,10 @@ class Node:
                 "using root node instead"
             )
             ancestor = self.first_ancestor_of_type(Manuscript)
-        if ancestor and ancestor.full_number:
-            return f"{ancestor.full_number}.{self.number}"
+        # Compute this only once, as it calls itself for each ancestor.
+        prefix = ancestor.full_number if ancestor else ""
+        if prefix:
+            return f"{prefix}.{self.number}"
         return f"{self.number}" if self.number else ""
 
     @property
-- 
2.43.0


From 161a37860666b77a6c30d6dc77a09e645c7500e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 34/59] fix: a paragraph ending with its second display had one
 </p> too many

---
 rsm/translator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index c927bf0..511b600 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -819,6 +819,8 @@ class Translator:
         # In case this mathblock is the last child of the paragraph, there is nothing
         # special to do since visit_mathblock() already handled the remaining </p> tag.
         if not node.next_sibling():
+            # Nor is there an open <p> left from a previous mathblock.
+            node.parent._must_close_p_tag = False
             return batch
 
         # If there are more children, we need to close this mathblock, start a new <p>
-- 
2.43.0


From 976accdd197d2dc10f53d9fc7ac2b7b081de83c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:19 +0000
Subject: [PATCH 35/59] fix: the types of an algorithm were dropped

---
 rsm/translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 511b600..811a62b 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -875,7 +875,7 @@ class Translator:
     def visit_algorithm(self, node: nodes.Algorithm) -> EditCommand:
         return AppendBatchAndDefer(
             [
-                AppendOpenTag(id=node.label, classes=["algorithm"]),
+                AppendOpenTag(id=node.label, classes=["algorithm", *node.types]),
                 AppendOpenTag("pre", classes=["pseudocode"]),
             ]
         )
-- 
2.43.0


From 9608720b7ea0e311f6945d1a8eb81d7a520c4e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:42 +0000
Subject: [PATCH 36/59] fix: warn about tokens missing from the source, not
 only about unexpected ones

---
 rsm/tsparser.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 36b0564..94c7590 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -195,6 +195,7 @@ class TSParser:
         try:
             if self.cst is None:
                 raise RSMParserError("No CST to abstractify")
+            _warn_about_missing(self.cst.root_node)
             self.ast = _abstractify(self.cst)
         except AttributeError as ex:
             raise RSMParserError(msg="Error abstractifying.") from ex
@@ -347,6 +348,18 @@ def _warn_about_error(node: TSNode) -> None:
     )
 
 
+def _warn_about_missing(node: TSNode) -> None:
+    # tree-sitter inserts the tokens it expected but did not find (e.g. a closing "::")
+    # as nodes that are not of type ERROR, so they need to be reported separately
+    stack = [node]
+    while stack:
+        node = stack.pop()
+        if node.is_missing:
+            _warn_about_error(node)
+        elif node.has_error:
+            stack += reversed(node.children)
+
+
 def _parse_meta_into_dict(node: TSNode) -> dict[str, Any]:
     pairs = {}
     for error in [c for c in node.named_children if c.type == "ERROR"]:
-- 
2.43.0


From 7d5faa00a80ec1aab81b7aad88e60d388301551a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:52 +0000
Subject: [PATCH 37/59] fix: report errors inside bibliography items and
 references

---
 rsm/tsparser.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 94c7590..97a71c3 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -536,6 +536,9 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
                 key, value = key.text.decode("utf-8"), value.text.decode("utf-8")
                 setattr(bib_node, key, value)
 
+            for error in [c for c in cst_node.named_children if c.type == "ERROR"]:
+                _warn_about_error(error)
+
             parent.append(bib_node)
             continue
 
@@ -676,8 +679,9 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
             ast_node.target = target_node.text.decode("utf-8")
             skip_these_ids.add(target_node.id)
 
-            if len(cst_node.named_children) > 2:
-                reftext_node = cst_node.named_children[2]
+            rest = [c for c in cst_node.named_children[2:] if c.type != "ERROR"]
+            if rest:
+                reftext_node = rest[0]
                 ast_node.overwrite_reftext = reftext_node.text.decode("utf-8")
                 skip_these_ids.add(reftext_node.id)
 
-- 
2.43.0


From 0998c99536fa2932004482d46493e049691bee88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:13 +0000
Subject: [PATCH 38/59] fix: a rejected edit leaves the node tree unchanged and
 no node gets two parents

---
 rsm/nodes.py | 70 +++++++++++++++++++++++++++++++++++-----------------
 1 file changed, 47 insertions(+), 23 deletions(-)

diff --git a/rsm/nodes.py b/rsm/nodes.py
index 4c0754f..49b0684 100644
--- a/rsm/nodes.py
+++ b/rsm/nodes.py
@@ -813,14 +813,14 @@ class Node:
         ids = [id(c) for c in self.parent.children]
         index = ids.index(id(self))
         parent = self.parent
+        new = [replacement] if isinstance(replacement, Node) else list(replacement)
+        parent._check_new_children(
+            new, "Attempting to replace by a child of another parent", leaving=self
+        )
         self.parent.remove(self)
-        if not isinstance(replacement, Node):
-            for idx, rep in enumerate(replacement):
-                parent._children.insert(index + idx, rep)
-                rep.parent = parent
-        else:
-            parent._children.insert(index, replacement)
-            replacement.parent = parent
+        for idx, rep in enumerate(new):
+            parent._children.insert(index + idx, rep)
+            rep.parent = parent
 
     def remove_self(self) -> None:
         """Remove this Node from its parent's children.
@@ -881,6 +881,30 @@ class NodeWithChildren(Node):
             c.parent = None
         self._children = []
 
+    def _check_new_children(
+        self, new: list[Node], message: str, leaving: Optional[Node] = None
+    ) -> None:
+        """Raise, before anything is changed, if some node cannot become a child."""
+        ancestors = set()
+        ancestor: Optional[Node] = self
+        while ancestor is not None:
+            ancestors.add(id(ancestor))
+            ancestor = ancestor.parent
+        seen = set()
+        for node in new:
+            if not isinstance(node, Node):
+                raise TypeError("Can only add a Node or iterable of Nodes as children")
+            if id(node) in seen or (node.parent is not None and node is not leaving):
+                raise RSMNodeError(message)
+            if id(node) in ancestors:
+                raise RSMNodeError("Attempting to make a node its own descendant")
+            allowed = node.__class__.possible_parents
+            if allowed and type(self) not in allowed:
+                raise RSMNodeError(
+                    f"Node of type {type(node)} cannot have parent of type {type(self)}"
+                )
+            seen.add(id(node))
+
     def append(self, child: Union[Node, Iterable[Node]]) -> "NodeWithChildren":
         """Add a child or children after all current children.
 
@@ -936,16 +960,16 @@ class NodeWithChildren(Node):
         rsm.nodes.RSMNodeError: Attempting to append child to a new parent
 
         """
-        if isinstance(child, Iterable):
-            for c in child:
-                self.append(c)
-        elif isinstance(child, Node):
-            if child.parent:
-                raise RSMNodeError("Attempting to append child to a new parent")
-            self._children.append(child)
-            child.parent = self
+        if isinstance(child, Node):
+            new = [child]
+        elif isinstance(child, Iterable) and not isinstance(child, str):
+            new = list(child)
         else:
             raise TypeError("Can only append a Node or iterable of Nodes as children")
+        self._check_new_children(new, "Attempting to append child to a new parent")
+        for c in new:
+            self._children.append(c)
+            c.parent = self
         return self
 
     def prepend(self, child: Union[Node, Iterable[Node]]) -> "NodeWithChildren":
@@ -958,16 +982,16 @@ class NodeWithChildren(Node):
         :meth:`append`
 
         """
-        if isinstance(child, list):
-            for c in reversed(child):
-                self.prepend(c)
-        elif isinstance(child, Node):
-            if child.parent and child.parent is not self:
-                raise RSMNodeError("Attempting to prepend child to a different parent")
-            self._children.insert(0, child)
-            child.parent = self
+        if isinstance(child, Node):
+            new = [child]
+        elif isinstance(child, Iterable) and not isinstance(child, str):
+            new = list(child)
         else:
             raise TypeError("Can only prepend a Node or iterable of Nodes as children")
+        self._check_new_children(new, "Attempting to prepend child to a different parent")
+        for c in reversed(new):
+            self._children.insert(0, c)
+            c.parent = self
         return self
 
     def remove(self, child: "Node") -> None:
-- 
2.43.0


From 9feeff82a38f7ab2f230cba103334f25d43d77d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:01 +0000
Subject: [PATCH 39/59] fix: source files are read as UTF-8 whatever the locale

---
 rsm/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/reader.py b/rsm/reader.py
index 0c16b0f..7f805e0 100644
--- a/rsm/reader.py
+++ b/rsm/reader.py
@@ -43,6 +43,6 @@ class Reader:
         if not path:
             raise TypeError("Expected path, got None")
         self.path = Path(path)
-        with open(path) as file:
+        with open(path, encoding="utf-8") as file:
             self.src = file.read()
         return self.src
-- 
2.43.0


From a0c113875832ea9e6958bb7e19e1a92fecf574ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:47 +0000
Subject: [PATCH 40/59] fix: rsm-lint and lint() take the verbosity that is
 asked for

---
 rsm/app.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rsm/app.py b/rsm/app.py
index 2d99ec3..1b3a759 100644
--- a/rsm/app.py
+++ b/rsm/app.py
@@ -197,7 +197,12 @@ class LinterApp(ParserApp):
         log_lineno: bool = True,
     ):
         super().__init__(
-            srcpath, plain, linter.Linter.LINT_LVL, log_format, log_time, log_lineno
+            srcpath,
+            plain,
+            min(loglevel, linter.Linter.LINT_LVL),
+            log_format,
+            log_time,
+            log_lineno,
         )
         mylinter = linter.Linter()
         self.add_task(Task("linter", mylinter, mylinter.lint))
-- 
2.43.0


From 681593f4842ea868161d262e3cdb0cd964f8ae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:53 +0000
Subject: [PATCH 41/59] fix: linting does not show warnings when only errors
 are asked for

---
 rsm/linter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/linter.py b/rsm/linter.py
index 72be60e..d0ec9eb 100644
--- a/rsm/linter.py
+++ b/rsm/linter.py
@@ -24,8 +24,8 @@ class Linter:
         logger.lint = lambda msg, *args, **kwargs: logger.log(  # type: ignore
             self.LINT_LVL, msg, *args, **kwargs
         )
-        if logger.level > self.LINT_LVL:
-            logger.level = self.LINT_LVL
+        if self.LINT_LVL < logger.level <= logging.WARNING:
+            logger.setLevel(self.LINT_LVL)
 
     def lint(self, tree: nodes.Manuscript) -> nodes.Manuscript:
         """Lint the manuscript."""
-- 
2.43.0


From 03334704a88c322208a7f365a2a6bbc8a09f13a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:59 +0000
Subject: [PATCH 42/59] fix: rsm-make --serve rebuilds sources whose path has
 blanks

---
 rsm/cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rsm/cli.py b/rsm/cli.py
index f3a68df..17ed425 100644
--- a/rsm/cli.py
+++ b/rsm/cli.py
@@ -5,6 +5,7 @@ utilities.
 
 """
 
+import shlex
 import sys
 from argparse import ArgumentParser, Namespace
 from importlib.metadata import version
@@ -124,7 +125,7 @@ def make() -> int:
 
     if args.serve:
         other_args = [a for a in sys.argv if a != "--serve"]
-        cmd = " ".join(other_args)
+        cmd = shlex.join(other_args)
         server = livereload.Server()
         server.watch(args.src, livereload.shell(cmd))
         main(parser, app.make, args)
-- 
2.43.0


From b75c1ea5e5a99a2d025d0f55db812d2dd534762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:49 +0000
Subject: [PATCH 43/59] fix: the minimap is in the same place whether or not
 the source is added to the page

---
 rsm/translator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index 811a62b..f42510c 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1683,8 +1683,6 @@ class HandrailsTranslator(Translator):
             batch = self._wrap_batch_item_with_handrails(
                 4, batch, classes=["heading"], menu_label="Title", link=True
             )
-        if self.add_source:
-            batch.items.insert(2, self._make_source_div())
         if toc := node.first_of_type(nodes.Contents):
             batch.items = (
                 batch.items[:3]
@@ -1693,6 +1691,8 @@ class HandrailsTranslator(Translator):
                 + [AppendText("</div>")]
                 + batch.items[3:]
             )
+        if self.add_source:
+            batch.items.insert(2, self._make_source_div())
         return batch
 
     def visit_author(self, node: nodes.Author) -> EditCommand:
-- 
2.43.0


From 712d19dbaf3cd1b46693b47b60536adac0bc8d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:35 +0000
Subject: [PATCH 44/59] fix: j and k skip collapsed items that are themselves
 hidden

---
 rsm/static/keyboard.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 6d2626e..7469826 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -284,9 +284,9 @@ function toggleMenu(el) {
 
 
 function isFocusable(el) {
-  if (el.classList.contains("hr-collapsed") && !el.classList.contains("hide")) return true;
-  if (el.closest(".hr-collapsed") || el.closest(".hide")) return false;
-  return true;
+  if (el.closest(".hide")) return false;
+  if (el.classList.contains("hr-collapsed")) return true;
+  return !el.closest(".hr-collapsed");
 }
 
 
-- 
2.43.0


From 409c58141241210863cb7d73418e516a9156db7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:42 +0000
Subject: [PATCH 45/59] fix: Enter on the link entry of a menu copies the link

---
 rsm/static/handrails.js | 2 +-
 rsm/static/keyboard.js  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/rsm/static/handrails.js b/rsm/static/handrails.js
index 8d6a203..289ecb9 100644
--- a/rsm/static/handrails.js
+++ b/rsm/static/handrails.js
@@ -169,7 +169,7 @@ export function collapseAll(target, withinSubproof = true) {
 
 };
 
-async function copyLink(target) {
+export async function copyLink(target) {
   const url = document.location.href.split('#')[0];
   const hr = target.closest(".hr")
   let needs_anchor = true;
diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 7469826..5dcbad3 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll } from '/static/handrails.js';
+import { toggleHandrail, collapseAll, copyLink } from '/static/handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
@@ -110,6 +110,9 @@ function executeActiveMenuItem(el) {
     case "collapse-steps":
       collapseAll(el, el.classList.contains("step"));
       break;
+    case "link":
+      copyLink(el);
+      break;
     case true:
       console.log($`unknown item class: ${cls[0]}`);
   }
-- 
2.43.0


From 5cde0598e6402e4fc07af2900d68ae6fa21d2c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 46/59] fix: every algorithm of a page is rendered, not just
 the first

---
 rsm/static/onload.js | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index 5c6071a..de89b87 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -48,12 +48,12 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
       await libs.loadPseudocode();
 
       const elements = document.querySelectorAll("pre.pseudocode");
-      if (elements.length) {
-        pseudocode.renderElement(elements[0], {
+      elements.forEach(element => {
+        pseudocode.renderElement(element, {
           lineNumber: true,
           noEnd: true,
         });
-      }
+      });
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
     }
-- 
2.43.0


From bbe9ed239f11b9690f2d745b077cb8b3bbae9b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 47/59] fix: the minimap follows sections whose label is not a
 CSS identifier

---
 rsm/static/minimap.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index 0feabbe..ed6cdf8 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -37,7 +37,7 @@ export function setup() {
     if (isHidden) return;
 
     const lastInViewport = sections.findLast(sec => withinView(sec, true));
-    const circle = document.querySelector(`#mm-${lastInViewport?.id}`)
+    const circle = lastInViewport?.id ? document.getElementById(`mm-${lastInViewport.id}`) : null;
     let percent;
     if (circle) {
       const circle_rect = circle.getBoundingClientRect();
-- 
2.43.0


From d82d17a7ae7e5087921080cf0506bd7d4c25b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:47 +0000
Subject: [PATCH 48/59] fix: pointing at the contents of a page without minimap
 raises no error

---
 rsm/static/minimap.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rsm/static/minimap.js b/rsm/static/minimap.js
index ed6cdf8..a299738 100644
--- a/rsm/static/minimap.js
+++ b/rsm/static/minimap.js
@@ -64,6 +64,7 @@ function withinView(el, top = true) {
 
 
 function highlightMinimap(percent, name) {
-  document.getElementById(`stop-follow-${name}-1`).setAttribute("offset", `${percent}%`);
-  document.getElementById(`stop-follow-${name}-2`).setAttribute("offset", `${percent}%`);
+  // pages without handrails have no minimap
+  document.getElementById(`stop-follow-${name}-1`)?.setAttribute("offset", `${percent}%`);
+  document.getElementById(`stop-follow-${name}-2`)?.setAttribute("offset", `${percent}%`);
 }
-- 
2.43.0


From cf975aea9107aa4af3df25c1b755ea9ef611a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 49/59] fix: references have tooltips whatever the label they
 refer to

---
 rsm/static/tooltips.js | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index b63294b..a4c37df 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -27,10 +27,6 @@ export function createTooltips() {
       }
       let content = "";
 
-      // escape '.' since it gets confused with a class
-      target = target.replaceAll(".", "\\.");
-      // escape ':' since it gets confused with the protocol
-      target = target.replaceAll(":", "\\:");
       if (target == "#") {
         content = '<span class="error">target node has no label</span>';
         setTooltipContent(instance, content);
@@ -38,6 +34,9 @@ export function createTooltips() {
         return;
       };
 
+      // labels are not always valid CSS selectors
+      target = document.getElementById(target.slice(1));
+
       let tag = $(target).prop('tagName');
 
       if (!$(target)[0]) {
-- 
2.43.0


From 225f0014c67175521d73ec50f352f34ff8629be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:01 +0000
Subject: [PATCH 50/59] fix: the tooltips of proofs, sketches, abstracts,
 authors, listings and lists are not empty

---
 rsm/static/tooltips.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index a4c37df..11c0bdc 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -59,7 +59,7 @@ export function createTooltips() {
         content = `<div>${content}</div>`;
       } else if (tag == "DT") {
         content = $(target).next().html();
-      } else if (tag == "TABLE") {
+      } else if (["TABLE", "OL", "UL"].includes(tag)) {
         content = $(target)[0].outerHTML;
       } else if (tag == "SECTION") {
         clone = $(target).clone();
@@ -81,7 +81,7 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem"].includes(cls)).length > 0:
+          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem", "proof", "sketch", "abstract", "author", "codeblock"].includes(cls)).length > 0:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-- 
2.43.0


From 2d378b045bbe308c54b75f3a2bbe9b62608ed074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:09 +0000
Subject: [PATCH 51/59] fix: the navigation keys raise no error on a page where
 nothing can have the focus

---
 rsm/static/keyboard.js | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 5dcbad3..8512185 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -79,6 +79,7 @@ export function setup(root) {
 
 function focusTop(root) {
   const focusable = getFocusableElements(root);
+  if (!focusable.length) return;
   focusable[0].focus();
   scrollToMiddle(focusable[0], "up");
 }
@@ -149,6 +150,7 @@ function menuUpOrDown(el, direction) {
 
 function focusUpOrDown(direction, root) {
   const focusableElements = getFocusableElements(root);
+  if (!focusableElements.length) return;
   let current = document.activeElement;
   let index = focusableElements.indexOf(current);
 
@@ -220,6 +222,7 @@ function focusUpOrDown(direction, root) {
 
 function focusPrevOrNext(direction, root) {
   const focusableElements = getFocusableElements(root);
+  if (!focusableElements.length) return;
   let index = focusableElements.indexOf(document.activeElement);
   console.log('index of current focused element:', index);
   if (index !== -1) {
-- 
2.43.0


From 1e41a3371dea0fb20afb2c0397abb3e1939425d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 52/59] fix: keyboard.js loads handrails.js from beside itself,
 wherever the scripts are served

---
 rsm/static/keyboard.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/static/keyboard.js b/rsm/static/keyboard.js
index 8512185..041b3e5 100644
--- a/rsm/static/keyboard.js
+++ b/rsm/static/keyboard.js
@@ -2,7 +2,7 @@
 //
 // Keyboard interaction
 //
-import { toggleHandrail, collapseAll, copyLink } from '/static/handrails.js';
+import { toggleHandrail, collapseAll, copyLink } from './handrails.js';
 
 export function setup(root) {
   // Nagivation: next or previous
-- 
2.43.0


From be9ee5efae62e5af39293fbce7a38120a8ef13a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:00 +0000
Subject: [PATCH 53/59] fix: an algorithm that cannot be rendered does not keep
 the next ones from being rendered

---
 rsm/static/onload.js | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rsm/static/onload.js b/rsm/static/onload.js
index de89b87..eb200f4 100644
--- a/rsm/static/onload.js
+++ b/rsm/static/onload.js
@@ -49,10 +49,14 @@ export async function onload(root = null, { path = "/static/", keys = true } = {
 
       const elements = document.querySelectorAll("pre.pseudocode");
       elements.forEach(element => {
-        pseudocode.renderElement(element, {
-          lineNumber: true,
-          noEnd: true,
-        });
+        try {
+          pseudocode.renderElement(element, {
+            lineNumber: true,
+            noEnd: true,
+          });
+        } catch (err) {
+          console.error("Rendering algorithm FAILED!", err);
+        }
       });
     } catch (err) {
       console.error("Loading pseudocode FAILED!", err);
-- 
2.43.0


From eccb29c15841fd777299e8218d15d7fe9e71c5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:43 +0000
Subject: [PATCH 54/59] fix: an escaped character in shown metadata or in a
 reference's text is shown without its backslash

---
 rsm/tsparser.py | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 97a71c3..1b576dc 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -63,6 +63,17 @@ class RSMParserError(Exception):
 
 
 DELIMS = ":%$`*{#"
+# metadata and arguments, other than titles of sections, that are shown to the reader
+SHOWN_ATTRS = (
+    "title",
+    "reftext_template",
+    "overwrite_reftext",
+    "name",
+    "affiliation",
+    "email",
+    "keywords",
+    "msc",
+)
 PUSH_THESE_TYPES = {
     "ERROR",
     "appendix",
@@ -485,8 +496,13 @@ def _normalize_text(root: TSNode) -> str:
             node.text = EscapedString(node.text, DELIMS).escape()
         if isinstance(node, nodes.Section):
             node.title = EscapedString(node.title, DELIMS).escape()
-        if isinstance(node, nodes.Manuscript):
-            node.title = EscapedString(node.title, DELIMS).escape()
+        elif not isinstance(node, nodes.Bibitem):
+            for attr in SHOWN_ATTRS:
+                val = getattr(node, attr, None)
+                if isinstance(val, str):
+                    setattr(node, attr, EscapedString(val, DELIMS).escape())
+                elif isinstance(val, list):
+                    setattr(node, attr, [EscapedString(v, DELIMS).escape() for v in val])
     
     return ""  # This function modifies nodes in place
 
-- 
2.43.0


From f38317a77d3b0596a3e96fca38de6031fc65208d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:09 +0000
Subject: [PATCH 55/59] fix: blanks around the label of a reference do not
 belong to it

---
 rsm/tsparser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rsm/tsparser.py b/rsm/tsparser.py
index 1b576dc..8139e5d 100644
--- a/rsm/tsparser.py
+++ b/rsm/tsparser.py
@@ -692,7 +692,7 @@ def _abstractify(cst: TSTree) -> nodes.Manuscript:
 
         if ast_node_type in ["ref", "previous", "url"]:
             target_node = cst_node.named_children[1]
-            ast_node.target = target_node.text.decode("utf-8")
+            ast_node.target = target_node.text.decode("utf-8").strip()
             skip_these_ids.add(target_node.id)
 
             rest = [c for c in cst_node.named_children[2:] if c.type != "ERROR"]
-- 
2.43.0


From 785aca0a3cc4f0bb871073c4c76043793178baa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:48 +0000
Subject: [PATCH 56/59] fix: no second number, always 1, before each entry of
 the bibliography

---
 rsm/static/rsm.css | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/rsm/static/rsm.css b/rsm/static/rsm.css
index 3fbdba0..572fe0a 100644
--- a/rsm/static/rsm.css
+++ b/rsm/static/rsm.css
@@ -981,20 +981,10 @@
 /* Bibliography */
 .manuscriptwrapper ol.bibliography {
   list-style: none;
-  counter-reset: item 1;
   padding-inline-start: 48px;
 
   li {margin-block: 0.75rem;}
 
-  li::before {
-    margin-right: 10px;
-    padding: 3px;
-    content: counter(item);
-    width: 1.2em;
-    text-align: center;
-    display: inline-block;
-  }
-
 }
 
 
-- 
2.43.0


From 29c83978a99f5f21dace347c8585308d308d2b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:00 +0000
Subject: [PATCH 57/59] fix: the label and types of a caption are put on it

---
 rsm/translator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rsm/translator.py b/rsm/translator.py
index f42510c..81879b6 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1167,7 +1167,9 @@ class Translator:
         return AppendBatchAndDefer(
             [
                 AppendOpenTag(
-                    "figcaption" if isinstance(parent, nodes.Figure) else "caption"
+                    "figcaption" if isinstance(parent, nodes.Figure) else "caption",
+                    id=node.label,
+                    classes=[str(t) for t in node.types],
                 ),
                 caption,
             ]
-- 
2.43.0


From 2a4ee9bd06aa939ceddbef17684fd43c800d4e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:00 +0000
Subject: [PATCH 58/59] fix: captions do not end in a handrail's info zone

---
 rsm/translator.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rsm/translator.py b/rsm/translator.py
index 81879b6..bb10ba2 100644
--- a/rsm/translator.py
+++ b/rsm/translator.py
@@ -1774,6 +1774,10 @@ class HandrailsTranslator(Translator):
         batch.items.insert(-1, self._hr_info_zone_icon(getattr(node, "icon", None)))
         return batch
 
+    def leave_caption(self, node: nodes.Caption) -> EditCommand:
+        # A caption is a paragraph without a handrail.
+        return super().leave_paragraph(node)
+
     def visit_theorem(self, node: nodes.Theorem) -> EditCommand:
         batch = super().visit_theorem(node)
         hr = self._replace_node_with_handrails(
-- 
2.43.0


From 0ec3e9d7f57d2c130591af4c9615356dc0b6182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:00 +0000
Subject: [PATCH 59/59] fix: tooltips of references to sub-proofs and captions
 show them

---
 rsm/static/tooltips.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rsm/static/tooltips.js b/rsm/static/tooltips.js
index 11c0bdc..d1d8f5d 100644
--- a/rsm/static/tooltips.js
+++ b/rsm/static/tooltips.js
@@ -48,7 +48,7 @@ export function createTooltips() {
 
       let clone = undefined;
 
-      if (["P", "LI", "FIGURE"].includes(tag)) {
+      if (["P", "LI", "FIGURE", "FIGCAPTION", "CAPTION"].includes(tag)) {
         content = $(target).html();
         content = `<div>${content}</div>`;
       } else if (tag == "SPAN" && classes.contains("math")) {
@@ -81,7 +81,7 @@ export function createTooltips() {
           case Array.from(classes).filter(cls => ["math", "algorithm"].includes(cls)).length > 0:
             content = $(target).html();
             break;
-          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem", "proof", "sketch", "abstract", "author", "codeblock"].includes(cls)).length > 0:
+          case Array.from(classes).filter(cls => ["paragraph", "mathblock", "theorem", "proposition", "remark", "bibitem", "proof", "subproof", "sketch", "abstract", "author", "codeblock"].includes(cls)).length > 0:
             clone = $(target).clone();
             stripHandrail(clone);
             content = $(clone).html();
-- 
2.43.0

