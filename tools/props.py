"""The properties, once; gen.py writes properties.jsonl and MANIFEST.json from this."""
T = "rsm/translator.py"
F = "rsm/transformer.py"
N = "rsm/nodes.py"
S = "rsm/tsparser.py"
A = "rsm/app.py"


def p(id, title, statement, over, text, why, files, mech, observe=("the HTML returned by rsm.render",), state=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             observe_at=list(observe), hook_needed=None))


PROPS = [
 p("P01", "Rendered pages are always well-formed HTML",
   "For every manuscript, both the plain and the handrails rendering (with or without the embedded source) are "
   "well-formed HTML: every tag opened is closed in the right order, every attribute is properly quoted, no block "
   "element sits where only inline content may be, and no text or metadata of the author (including the characters "
   "< > & \" ') is ever taken for markup.",
   ["inputs", "programs"],
   "all manuscripts: every composition of blocks, every nesting, every text and metadata value, both views",
   "The tests compare a few dozen fixed pages; well-formedness breaks only for particular combinations of neighbours, "
   "nesting or characters, and the number of combinations is unbounded.",
   [T], [("deferred closing tags", "rsm/translator.py: Translator.push_defer / leave_node"),
         ("escaping", "rsm/translator.py: _escape, _escape_attr"),
         ("paragraph broken by display math", "rsm/translator.py: visit_mathblock, visit_claimblock")],
   state=[("deferred", "stack of commands that close what is open", "rsm/translator.py: Translator.deferred")]),
 p("P02", "Every word of the source is shown once, in order, and none is invented",
   "The text a reader sees is the text the author wrote: each word, formula and code fragment of the manuscript "
   "appears exactly once, in source order, in the element it belongs to; words separated in the source (by a space, "
   "a line break or a tag boundary with a gap) stay separated and words written together stay together.",
   ["inputs", "programs"],
   "all sequences of text and inline tags, with and without blanks between them, in every kind of container",
   "Whitespace and text merging depend on each pair of neighbours and on line structure; tests fix a handful of paragraphs.",
   [S, T], [("text normalisation", "rsm/tsparser.py: _normalize_text"),
            ("line joining", "rsm/tsparser.py: _abstractify (text nodes at line ends)")]),
 p("P03", "The handrails view shows exactly the plain page plus controls",
   "With its controls taken away, the handrails rendering of any manuscript has the same content as the plain "
   "rendering: the same elements, texts, ids, classes and links in the same order.  Every collapsible or selectable "
   "unit has one complete set of controls, its menu is titled after the unit, and its copy-link entry is enabled "
   "exactly when the unit has a label (the title's, which copies the link of the page, always).",
   ["inputs", "programs"],
   "all manuscripts built from every block and inline construct, in every order and nesting up to the bound",
   "Tests render one or two constructs in each view and never compare the two views of the same manuscript.",
   [T], [("wrapping of nodes in handrails", "rsm/translator.py: HandrailsTranslator._replace_node_with_handrails"),
         ("wrapping of headings", "rsm/translator.py: _wrap_batch_item_with_handrails")]),
 p("P04", "Automatic numbers follow the document's order and nesting",
   "Sections, theorem-like blocks, equations, figures, tables, algorithms, proof steps and bibliography entries are "
   "numbered consecutively from 1 in source order within their scope (theorem-like kinds share one counter per "
   "section, equations and figures count per section, subsections per section, steps per proof level; sections after "
   "the appendix are lettered A, B, ...); unnumbered items take no number and change no other item's number.  "
   "The number shown on an item, in its heading, caption or margin, is that number prefixed by its enclosing "
   "numbered section's.",
   ["inputs", "programs"],
   "all sequences and nestings of numbered and unnumbered items and sections up to the bound, in both views",
   "A counter that is reset, shared or skipped wrongly shows only for particular orders of items and sections; tests fix a few.",
   [F, N], [("counters", "rsm/transformer.py: autonumber_nodes, _autonumber_steps"),
            ("full numbers", "rsm/nodes.py: Node.full_number")],
   state=[("counts", "next number per (scope, kind)", "rsm/transformer.py: autonumber_nodes")]),
 p("P05", "Every reference links to the labelled thing and names it correctly",
   "A reference to a label anywhere in the manuscript, before or after the labelled thing, becomes a link to exactly "
   "the element bearing that label (the first one if the label is repeated), showing the author's text if given and "
   "otherwise the thing's kind and number, or its custom reference text.  A reference to a label that does not exist "
   "is shown as a visible error naming the label and never as a link, and every internal link leads to an existing element.",
   ["inputs", "programs"],
   "all placements of labels, duplicates, references, texts and templates over all referable kinds, in both views",
   "Resolution order, duplicate labels and default texts interact with every kind of target; tests cover single pairs.",
   [F, N, T], [("label table", "rsm/transformer.py: collect_labels"),
               ("resolution", "rsm/transformer.py: resolve_pending_references"),
               ("reference text", "rsm/nodes.py: Node.reftext")]),
 p("P06", "Citations, bibliography entries and back-links agree",
   "Each citation shows, per cited key and in the order written, the number of that bibliography entry linked to the "
   "entry, and an unknown key is shown as a visible error; entries are listed in source order, numbered from 1, with "
   "the author, title, journal or publisher, year and DOI link given, and no others.  Each entry's back-links lead to exactly the citations of that entry, in text "
   "order, and citation ids never clash with the author's labels.",
   ["inputs", "programs"],
   "all citation sequences and groups over known, unknown and non-bibliography keys, all field subsets of entries, all clashing labels",
   "Back-link and id bookkeeping depend on the whole history of citations; tests have one bibliography.",
   [F, T, S], [("citations", "rsm/transformer.py: resolve_pending_references"),
               ("entries", "rsm/translator.py: visit_bibitem, visit_cite"),
               ("bibtex parsing", "rsm/tsparser.py: _abstractify")]),
 p("P07", "The table of contents mirrors the section tree",
   "A table of contents, wherever it stands, lists every section, subsection and subsubsection of the manuscript "
   "exactly once, in order, nested as they are nested, each entry showing the section's number and title and linking "
   "to it; further tables of contents are dropped.  In the handrails view the minimap has one mark per entry, in the "
   "same order, sized by level.",
   ["inputs", "programs"],
   "all section trees up to the bound, numbered and not, labelled and not, before and after an appendix, with the table at any legal place",
   "Nesting is reconstructed from sibling positions, so particular shapes of tree go wrong; tests use two shapes.",
   [F, T], [("toc construction", "rsm/transformer.py: make_toc"), ("minimap", "rsm/translator.py: _make_minimap")]),
 p("P08", "Proofs keep their hierarchical structure",
   "A proof of any depth is shown with its steps in order, each with its statement separated from its subproof; "
   "sub-steps written directly in a step form a subproof without the author adding one, and only the last top-level "
   "step is marked last.  A 'previous' reference k steps back leads to the k-th preceding sibling step and shows its "
   "hierarchical number, and asking for a step that does not exist is reported.",
   ["inputs", "programs"],
   "all proof trees up to the bound in size and depth, with every legal and illegal previous-reference",
   "Trees grow exponentially and wrapping depends on child positions; tests have a few two-level proofs.",
   [F, T], [("subproof insertion", "rsm/transformer.py: add_necessary_subproofs"),
            ("step numbers", "rsm/transformer.py: _autonumber_steps"),
            ("previous references", "rsm/transformer.py: resolve_pending_references")]),
 p("P09", "Identifiers are unique and identify what they should",
   "In every page all element ids are distinct, each label of the author that is shown as an id sits on the element it "
   "labels, a repeated label stays with its first bearer, and node ids number the shown nodes in document order without repetition.",
   ["inputs", "programs"],
   "all manuscripts over every labellable construct, with distinct, repeated and generated-looking labels, both views",
   "Uniqueness is a global property of the page; tests look at single elements.",
   [F, T], [("labels", "rsm/transformer.py: collect_labels"), ("node ids", "rsm/transformer.py: assign_node_ids"),
            ("tags", "rsm/translator.py: _make_tag")]),
 p("P10", "Shorthand and longhand markup mean the same",
   "Wherever a shorthand exists (headings with #, emphasis with * and /, math with $ and $$, code with ` and ```, table "
   "rows with colons, the claim sign), replacing any set of its uses by the long tag, or back, gives the same page.",
   ["inputs", "programs"],
   "all choices of short or long form per occurrence in manuscripts over all constructs, in every context and with metadata",
   "The two notations take different parser paths; tests check each pair once, in one context.",
   [S, "rsm/tags.py"], [("both notations", "rsm/tsparser.py: CST_TYPE_TO_AST_TYPE, _abstractify")]),
 p("P11", "Math and code are passed on verbatim and escapes yield the character",
   "The content of inline and display math, inline code, code blocks and algorithms reaches the page character for "
   "character, whatever markup-like characters it has; in ordinary text a backslash before a markup character shows "
   "just that character, and no other backslash is lost.",
   ["inputs"],
   "all strings up to the bound over an alphabet of markup, HTML and TeX characters, in every verbatim and text position",
   "The input space is all strings; tests have single escapes.",
   [S, T, "rsm/util.py"], [("verbatim text", "rsm/tsparser.py: _abstractify (asis_text)"),
                           ("escapes", "rsm/util.py: EscapedString.escape")]),
 p("P12", "Any input is rendered or rejected with a report, never mangled silently",
   "For every input string, rendering ends and either gives a well-formed page, with every part that the grammar does "
   "not understand marked as an error or reported by a warning that gives its position, or is rejected with an error report that names the problem; it never ends in an "
   "unrelated internal failure, and whenever a warning-free page is returned no error mark is on it.",
   ["inputs"],
   "all sequences of source tokens up to the bound, including unbalanced, misplaced and truncated ones",
   "Erroneous inputs are unbounded and tests cover a few of them.",
   [S, F, T, A], [("error nodes", "rsm/tsparser.py: _abstractify (ERROR)"), ("error report", "rsm/app.py: RSMApp.run")],
   observe=("return value, exceptions and log of rsm.render",)),
 p("P13", "The linter reports exactly the documented problems, where they are",
   "Linting reports one message for a manuscript without title, one for each section of any level without label and "
   "one for each equation (other than a claim) outside a paragraph, each with the line and column (from 1) of the offending item, and "
   "nothing else; linting does not change what is rendered afterwards.",
   ["inputs", "programs", "configurations"],
   "all manuscripts over sections, titles and equations up to the bound, via the lint and make applications",
   "Exactness needs both no miss and no false report on every combination; tests do not lint at all.",
   ["rsm/linter.py", A, "rsm/rsmlogger.py"], [("rules", "rsm/linter.py: Linter.lint")],
   observe=("log records of rsm.lint and rsm.make",)),
 p("P14", "Results do not depend on history, reuse or concurrency",
   "Rendering a manuscript gives the same page whatever was rendered, linted or built before in the process, in "
   "whichever view, with fresh or reused pipeline objects, and when several threads render at once; no call changes "
   "the outcome of another.",
   ["histories", "schedules"],
   "all histories of calls up to the bound over manuscripts that share labels and constructs, and all interleavings of two threads up to a preemption bound",
   "State leaking from one call to the next or between threads shows only in particular orders; tests run one call each.",
   [A, S, F, T, N, "rsm/rsmlogger.py"], [("per-call objects", "rsm/app.py: ParserApp, ProcessorApp"),
                                          ("per-tree state", "rsm/transformer.py: Transformer; rsm/translator.py: Translator")],
   observe=("pages returned by rsm.render and by reused parser, transformer and translator objects",)),
 p("P15", "The node tree behaves as an ordered tree under every edit sequence",
   "After any sequence of append, prepend, remove, replace and clear operations, children, parents, siblings, "
   "ancestors, traversals and searches agree with an ordered-tree model: each node has at most one parent, which lists "
   "it exactly once, and rejected operations leave the tree unchanged.",
   ["histories"],
   "all operation sequences up to the bound on small sets of nodes, including illegal ones",
   "Tests call each operation once or twice from a fresh tree.",
   [N], [("tree edits", "rsm/nodes.py: NodeWithChildren.append, prepend, remove, replace; Node.replace_self, remove_self"),
         ("queries", "rsm/nodes.py: traverse, first_of_type, last_of_type, prev_sibling, next_sibling")],
   observe=("public methods of the node classes",)),
 p("P16", "A build writes a complete page, faithful to the source, or reports failure",
   "Building a manuscript from a string or file leaves in the working directory an index page holding exactly the "
   "rendered body and the title, every style sheet and script the page loads, and a copy of every image the manuscript "
   "uses; nothing else is written and the source is untouched.  If any read or write fails the build ends with an error "
   "rather than reporting success, and running it again without the fault gives the complete result.",
   ["inputs", "configurations", "fault_sequences"],
   "all manuscripts over asset layouts and titles up to the bound, from string and file, and a failure injected at each file operation",
   "Tests do not run the builder on disk or with failing files.",
   ["rsm/builder.py", "rsm/writer.py", "rsm/reader.py", "rsm/manuscript.py", A],
   [("page", "rsm/builder.py: SingleFileBuilder.make_main_file"), ("assets", "rsm/builder.py: FullBuilder"),
    ("writing", "rsm/writer.py: Writer.write")], observe=("files in the output directory",)),
 p("P17", "Options do what they say and nothing else",
   "For every combination of options, the command line tools and the library calls give the same page for a file and "
   "for the same text as a string; verbosity, log format, timestamps, line numbers and silence change only what is "
   "logged or printed, and every log record is printed in the chosen format with exactly the chosen parts.",
   ["configurations"],
   "the full lattice of command line and library options over manuscripts that log nothing, warnings with and without positions, and errors",
   "The lattice has hundreds of points; tests touch a few.",
   ["rsm/cli.py", A, "rsm/rsmlogger.py", "rsm/reader.py"], [("options", "rsm/cli.py: main"), ("formats", "rsm/rsmlogger.py")],
   observe=("stdout, stderr and exit status of the tools",)),
 p("P18", "Collapsing hides exactly what was asked and can always be undone",
   "Under any sequence of clicks on collapse controls, 'collapse' and 'collapse all', an item's content is hidden "
   "exactly while its own control is collapsed, every control's icon shows its true state, everything can be expanded "
   "again to the original page, and no click changes an item it does not control.",
   ["histories", "inputs"],
   "all sequences of clicks on every control and menu entry, as reachable states of pages with nested proofs, theorems and sections",
   "The page's scripts have no tests at all.",
   ["rsm/static/handrails.js", "rsm/static/icons.js"], [("collapse logic", "rsm/static/handrails.js")],
   observe=("DOM of the page after each event",)),
 p("P19", "Keyboard navigation moves the focus predictably and acts like the mouse",
   "On any page every navigation key moves the focus to the documented neighbour, skips what is hidden, never loses "
   "the focus or raises an error, and the keys that open menus, collapse or copy links have exactly the effect of the "
   "corresponding clicks.",
   ["histories", "inputs"],
   "all reachable states under key presses and clicks on pages with nested, collapsed and menu-open items",
   "The page's scripts have no tests at all.",
   ["rsm/static/keyboard.js", "rsm/static/handrails.js"], [("key handling", "rsm/static/keyboard.js")],
   observe=("focused element and DOM after each key",)),
 p("P23", "Tooltips show what is referred to, and the minimap follows the reader",
   "On every page, in either view, each reference to a labelled thing has a tooltip that shows that thing, without its controls, whatever its kind, "
   "its label and the rest of the page; every algorithm is rendered, once; and pointing at an entry of the table of contents or scrolling to a "
   "section highlights in the minimap exactly the sections up to that one, without raising an error.",
   ["inputs", "histories"],
   "every kind of target under every label of a list, pairs of kinds, section trees and pairs of pointer, focus and scroll events",
   "The page's scripts have no tests at all.",
   ["rsm/static/tooltips.js", "rsm/static/minimap.js", "rsm/static/onload.js"], [("tooltips", "rsm/static/tooltips.js: createTooltips"), ("minimap", "rsm/static/minimap.js")],
   observe=("contents given to the tooltips, elements handed to the renderer of algorithms, offsets of the minimap's gradient",)),
 p("P24", "A page works with whatever of its scripts load, whenever they do",
   "Whichever of the scripts of a page fail to load (icons, handrails, keyboard, minimap, tooltips, MathJax, pseudocode, jQuery, tooltipster), whenever "
   "those of the network arrive or fail relative to what the reader does, from whatever path the scripts are served, and whichever algorithms the "
   "renderer of algorithms does not accept: opening the page raises no error, nothing the reader has not hidden is hidden, each aid whose own scripts loaded "
   "(collapsing and menus, keys, tooltips, minimaps, the other algorithms) works as with all of them, and a script that arrives late leaves the page as if it had come at once.",
   ["inputs", "fault_sequences", "schedules"],
   "all subsets of the scripts that can fail, all interleavings of the arrival of network scripts with the reader's actions, all subsets of algorithms refused",
   "The page's scripts have no tests at all, and failures of loading are not met in ordinary use.",
   ["rsm/static/onload.js", "rsm/static/libraries.js", "rsm/static/keyboard.js"], [("onload", "rsm/static/onload.js: onload"), ("libraries", "rsm/static/libraries.js")],
   observe=("visibility, icons, focus, tooltips, toasts, copied links, errors raised, elements handed to the renderer",)),
 p("P25", "The stylesheet shows every word, hides what is collapsed and adds nothing",
   "In both views and in every state of the page (as loaded, with any handrail hovered, focused or collapsed, any menu open, any element hidden by the "
   "scripts, whatever conditional groups of the stylesheets hold), the stylesheets that a built page links to display every word and picture of the "
   "manuscript; they do not display what carries the class hide, nor a menu that is not open; the controls of a hovered, focused or collapsed handrail are seen; "
   "items of an enumeration have numbers, and no other number or word is generated that the manuscript has not, except the note that steps are hidden.",
   ["inputs", "programs"],
   "all pages over one and two block templates and all small proofs, in both views, times every state of one element",
   "No test reads the stylesheet; what is seen depends on the cascade of dozens of nested rules over the nesting of the page and its state.",
   ["rsm/static/rsm.css", T], [("rules", "rsm/static/rsm.css"), ("classes", "rsm/translator.py: visit_*, HandrailsTranslator")],
   observe=("display, visibility, opacity, list markers and generated content computed for the elements of the page",)),
 p("P20", "The page has the blocks of the source, nested and ordered as written",
   "Every block of a manuscript (sections, paragraphs, theorem-like blocks, proofs, lists, tables, figures, captions, "
   "equations, code, abstract, authors, bibliography) appears exactly once in the page, in source order and inside the "
   "block that contains it in the source, as the element of its kind; list items, table rows and cells keep their "
   "number and order, and every paragraph break of the source is a paragraph break of the page.",
   ["inputs", "programs"],
   "all sequences and nestings of block templates and all small list, table and figure shapes, both views",
   "Structure can break for particular neighbours and nestings only; tests fix single blocks.",
   [S, T], [("tree building", "rsm/tsparser.py: _abstractify"), ("block translation", "rsm/translator.py: visit_*")]),
 p("P21", "Metadata is applied to its own element and never shown as text",
   "Labels, types, titles, languages, paths, scales, icons, names, keywords and flags given to an element take effect "
   "on exactly that element, in any order and subset, in block or inline form, and leave no trace in the text; elements "
   "without metadata get none.",
   ["inputs", "programs"],
   "all subsets and orders of metadata keys on every element kind, next to elements with other metadata, both views",
   "Keys times elements times orders is far beyond the tests, which give one or two keys to some elements.",
   [S, N, T], [("metadata parsing", "rsm/tsparser.py: _parse_meta_into_dict"), ("application", "rsm/nodes.py: Node.ingest_dict_as_meta")]),
 p("P22", "Comments, indentation and blank lines do not change the page",
   "Adding or removing comments, indenting with spaces or tabs, adding blank lines between blocks, wrapping a "
   "paragraph over lines, ending lines the Windows way and ending the file with or without blank lines never changes the rendered page.",
   ["inputs", "programs"],
   "all combinations of layout variations on manuscripts over all constructs",
   "Layout variations multiply with constructs; tests fix one layout per construct.",
   [S], [("comments", "rsm/tsparser.py: _abstractify"), ("line joining", "rsm/tsparser.py: _normalize_text")]),
]
