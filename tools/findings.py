"""Write known_findings.json: what the checks found in the original code.

status "fixed": repaired by that commit; suppresses nothing.
status "known": recorded, not repaired; the check prints KNOWN-FINDING for this key only."""
import json
import os
FIXED = [
 ("P05", "29c8397", "the label of a caption appeared on no element: references to it led nowhere"),
 ("P03", "2a4ee9b", "captions ended in an empty hr-info-zone, a part of a handrail they do not have"),
 ("P23", "0ec3e9d", "tooltips of references to sub-proofs and captions were empty"),
 ("P20", "b4c580e", ":suppose: and :wlog: constructs were shown without their keywords"),
 ("P20", "0fda681", ":exercise:, :problem: and :porism: were parsed as other things than theorems of their kind"),
 ("P04", "a3c657a", "unnumbered figures and tables were captioned 'Figure None.' and 'Table None.'"),
 ("P04", "d80b1e8", "after :appendix: everything, not just sections, was lettered, and the 27th letter failed"),
 ("P09", "bbb244b", "the img of a labelled figure repeated the figure's id"),
 ("P06", "7215ea0", "the generated id cite-N of a citation could be one of the author's labels"),
 ("P01", "b252544", "<, >, & and quotes of the author's text and metadata reached the page as markup"),
 ("P01", "458154b", "display math outside of a paragraph, or marked as a claim, closed a <p> that was not open"),
 ("P02", "85caa97", "the space between two adjacent inline tags was lost"),
 ("P16", "91a2392", "FullBuildApp gave its options to the wrong parameters"),
 ("P17", "cd9415b", "a log record with a start point but no end point could not be formatted"),
 ("P17", "0830299", "the rsm log format printed line numbers although told not to"),
 ("P14", "43fcab6", "a reused Transformer knew the labels of the manuscript before"),
 ("P14", "957871f", "translating the same tree again gave another page"),
 ("P18", "d715d9f", "collapsing a handrail changed the icon of one inside of it"),
 ("P19", "cfd7255", "copying the link of a heading copied no link"),
 ("P19", "05108bb", "the H key did nothing"),
 ("P19", "5c9a741", "collapse all by key acted on other steps than by mouse"),
 ("P19", "609b88c", "arrow keys in a page without open menu moved into closed menus"),
 ("P19", "5cedb8f", "h and l raised an error when nothing had the focus"),
 ("P19", "9828319", "scrolling a manuscript without table of contents raised an error"),
 ("P06", "7f247a8", "a bibliography entry without author, title or year failed to render"),
 ("P12", "a8d0856", "a syntax error inside of metadata ended in an internal failure"),
 ("P06", "bda1e3a", "citing something that is not a bibliography item ended in an internal failure"),
 ("P12", "6f5206d", "code in a language unknown to the highlighter ended in an internal failure"),
 ("P01", "0be9272", "a DOI containing > broke the page of the handrails view"),
 ("P02", "aeab301", "notes and drafts were shown with blanks around them that the source has not"),
 ("P03", "dcc854e", "an author without metadata ended in an internal failure in the handrails view"),
 ("P03", "dcd0ebf", "some theorem kinds had class theorem in the plain view only"),
 ("P12", "1146c2a", "a brace in a custom reference text made rendering fail with a ValueError"),
 ("P06", "06e321a", "the generated id cite-N-i of part of a citation could be one of the author's labels"),
 ("P12", "920faa6", "anything after a subproof made rendering fail with an AssertionError"),
 ("P12", "3204bca", "the time to render a proof in the handrails view doubled with each level of nesting"),
 ("P01", "161a378", "a paragraph with two displays that ends with the second had a </p> too many"),
 ("P21", "976accd", "the types given to an algorithm were dropped"),
 ("P12", "9608720", "a missing token, such as the closing :: of a block, was accepted without any report"),
 ("P15", "0998c99", "a rejected edit left the tree changed; prepend and replace_self could list a node twice or give it two parents; a node could become its own descendant"),
 ("P17", "9feeff8", "a source file was read in the encoding of the locale, so its page was not that of the same text as a string"),
 ("P17", "a0c1138", "rsm-lint -v and lint(loglevel=...) ignored the verbosity asked for"),
 ("P17", "681593f", "make(lint=True, loglevel=ERROR) logged warnings: creating the linter lowered the level"),
 ("P17", "0333470", "rsm-make --serve could not rebuild a source whose path has a blank"),
 ("P17", "b75c1ea", "with add_source=True the minimap was outside of the manuscript, without it inside"),
("P19", "712d19d", "j and k landed on a collapsed item that is itself hidden in another"),
("P23", "225f001", "the tooltips of proofs, sketches, abstracts, authors, listings and lists were empty"),
("P23", "cf975ae", "a reference to a label with characters such as + or ' left it and all later references without tooltip"),
("P23", "d82d17a", "pointing at the table of contents of a page without minimap raised an error"),
("P23", "bbe9ed2", "the minimap did not follow sections whose label is not a CSS identifier, such as a.b"),
("P23", "5cde059", "only the first algorithm of a page was rendered"),
("P19", "2d378b0", "the navigation keys raised an error on pages where nothing can have the focus, such as plain pages without references"),
("P19", "409c581", "Enter on the link entry of a menu opened by key copied nothing"),
 ("P12", "7d5faa0", "an error inside of a bibliography item was not reported, and one inside of a reference became its text"),
 ("P24", "1e41a33", "with the scripts served from elsewhere than /static/ (onload's option path) no key worked: keyboard.js imported /static/handrails.js"),
 ("P24", "be9ee5e", "one algorithm that pseudocode does not accept kept all later ones from being rendered"),
 ("P21", "eccb29c", "an escaped character in a theorem's title, an author's name, a reference text and the like was shown with its backslash"),
 ("P22", "f38317a", ":ref: lb:: and :ref:lb ,text:: did not know the label, though :cite: and :url: allow such blanks"),
 ("P25", "785aca0", "each entry of the bibliography was shown with a second number, which was always 1"),
]
KNOWN = [
 ("P02", "blank-around-code", "inline code is shown with a blank on either side even where the source has none, as in `f`'s",
  "the existing tests fix the line breaks around <span class=\"code\">, so it cannot be repaired without editing them"),
 ("P02", "blank-before-math-dot", "the handrails view shows a blank before math that is followed by a full stop even where the source has none, as in ($x$.",
  "tests/test_handrails.py fixes the line break inside of the inline-math-wrapper"),
 ("P03", "blank-before-math-dot", "the handrails view shows a blank before math that is followed by a full stop where the plain view has none",
  "as above"),
 ("P02", "keyword-joined", "the keyword of a construct that starts with a tag other than math, as in :let: *x* ::, is joined to what follows",
  "tests/test_construct.py::test_real_life_example fixes the node ids of such a construct, so no text can be added there"),
 ("P09", "minimap-mask", "the two minimaps of a handrails page with a table of contents both have an element with id gradient-mask",
  "tests/test_handrails.py fixes the markup of the minimap"),
 ("P09", "minimap-unlabelled", "every unlabelled section has a minimap mark with the same id mm-",
  "tests/test_handrails.py fixes the markup of the minimap"),
 ("P09", "minimap-label", "the id mm-x of the minimap mark of section x can be a label of the author",
  "tests/test_handrails.py fixes the markup of the minimap"),
 ("P09", "doi-label", "the id x-doi of the DOI link of bibliography entry x can be a label of the author",
  "tests/test_handrails.py fixes the ids"),
 ("P16", "image-clash", "of two images with the same name in different folders, such as a.png and sub/a.png, only one is copied to static/",
  "every image is copied to static/NAME; other names for the copies would be a new design, and what serves static/ is not in the repository"),
 ("P16", "input-clash", "an image static/a.png is overwritten by the copy of another image called a.png",
  "as above"),
]
if __name__ == "__main__":
    out = [dict(property=p, key="", status="fixed", commit=c, what=w, line=f"fixed: property={p} {c} {w}") for p, c, w in FIXED]
    out += [dict(property=p, key=k, status="known", what=w, why=y) for p, k, w, y in KNOWN]
    with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")
