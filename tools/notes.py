"""Level, technique and note of each check."""
HOOKS = None
NOT_APPLICABLE = {}
NOTES = ("Every check runs the real code of /repo's working tree on every case of a bounded space and compares it with "
         "an independent reference; ./check --replay FILE runs one reported case again.")
DOC = ("model_checking", "bounded exhaustive exploration of a document-growth model, every model state replayed on the implementation and compared with an independent reference model")
TRUST = "; trusts the reference model in mc/refrender.py and the HTML reader in mc/htmltree.py"
LEVEL = {
 "P01": (*DOC, "Exhaustive for all block sequences and two-deep nestings up to the bound and for all strings of HTML metacharacters up to the bound in each of the listed text positions" + TRUST),
 "P02": (*DOC, "Exhaustive for all pairs (thorough: triples) of inline tags and separators in 11 containers; word contents are fixed. Three recorded findings about single blanks" + TRUST),
 "P03": (*DOC, "The two views are compared with each other, so only the list of controls needs the reference model; exhaustive up to the bounds over 56 block templates" + TRUST),
 "P04": (*DOC, "Exhaustive for all sequences up to length 3 (thorough 4) over 24 numbered and unnumbered templates, length 6 over 9, all nestings of pairs in 6 hosts and runs up to 60; numbers are compared with a counter model" + TRUST),
 "P05": (*DOC, "Exhaustive for 31 kinds of target times placements, texts and containers, all ordered pairs (thorough triples) of kinds with equal or different labels; every internal link of both views is followed" + TRUST),
 "P06": (*DOC, "Exhaustive for all citation sequences up to length 3 (thorough 4), all field subsets and orders of up to 4, all label clashes of up to 3 (5) labels; links are followed both ways" + TRUST),
 "P07": (*DOC, "Exhaustive for all section trees of up to 4 (5) headings over 9 kinds, 6 (7) over 5 and 10 over 3 in thorough, with the table at every place the grammar allows" + TRUST),
 "P08": (*DOC, "Exhaustive for all proof trees of up to 6 (8) steps and all previous-references of trees of up to 4 (5); proofs of depth and width up to 26" + TRUST),
 "P09": (*DOC, "Exhaustive for all block sequences up to the bound, all pairs and triples of labellable kinds with equal and distinct labels and 23 labels that look generated on 29 kinds; four recorded findings about generated ids" + TRUST),
 "P10": (*DOC, "Exhaustive for all choices of notation (2^5, thorough 2^8 or 2^6 places, beyond that up to two deviations from four base patterns) over all pairs of 56 block templates and all pairs (thorough triples) of 18 parts in 13 containers; compares the implementation with itself" ),
 "P22": (*DOC, "Exhaustive for every single layout edit at every place, all pairs of edits on small documents, all edits of a kind at once and a lattice of whole-file layouts; compares the implementation with itself"),
 "P21": (*DOC, "Exhaustive for all subsets of up to 3 (thorough 5) keys in all orders of up to 2 (4) on 29 kinds of element with three layouts and three neighbourhoods, and all pairs of kinds; a note's types are left out (they have no documented effect)" + TRUST),
 "P12": ("model_checking", "bounded exhaustive exploration of token sequences on the real parser, transformer and translator, judged against the concrete syntax tree and the log", "Exhaustive for all sequences of up to 2 (thorough 3) of 70 source tokens in a manuscript and (thorough) 5 further frames, of up to 2 (3 of 23 core tokens) in 6 more, and of 3 (4) core tokens in a manuscript; trusts tree-sitter's marking of errors and the HTML reader"),
 "P13": ("model_checking", "bounded exhaustive exploration of manuscripts on the real lint and build applications, compared with the reports expected of each block", "Exhaustive for all sequences of up to 2 (thorough 3) of 62 blocks, of 3 (4) of a core of 14, and 5 of 8 in thorough, with 5 kinds of title and 6 layouts; expected positions come from marks in the block templates"),
 "P14": ("model_checking", "exhaustive exploration of call histories in forked processes and of thread interleavings under a controlled scheduler up to a preemption bound, on the real code", "Exhaustive for all pairs of 88 (quick 60) calls and triples of 10 (thorough 30) over 12 manuscripts, for all single preemptions at calls of 2 (25) pairs of renderings, in thorough also at lines of 3 pairs and all double preemptions of a small pair; preemption inside of C code and of the logging formatters is not explored"),
 "P15": ("model_checking", "explicit-state search of an ordered-forest model with every transition executed on the real node classes and compared, plus all unmerged edit sequences up to a depth", "Exhaustive: all forests over 8 sets of 4 nodes (thorough: also 4 of 5 nodes), every edit with every legal and illegal argument in each; all sequences of 3 (thorough 4) edits"),
 "P16": ("model_checking", "exhaustive enumeration of manuscripts and of every single (thorough: every pair of) fault and crash point of the real build under a fault-injecting C library shim", "Exhaustive: titles x images x bodies x ways to build; every file operation of 6 builds made to fail, be short, tear or kill; then the build is run again and must be complete"),
 "P17": ("model_checking", "exhaustive enumeration of the option lattice of the tools and library functions on the real code, with log output decided by a hand-written filter and formatter over the records of a run that logs everything", "Exhaustive: tools x manuscripts x string/file x all option combinations (quick: up to 3 options away from the defaults for some manuscripts), all pairs of options in all spellings and orders; files in two locales; --serve with a stand-in server"),
 "P11": (*DOC, "Exhaustive for all strings of up to 2 (thorough 3) of 22 characters and of 3 (4) of 11 in 9 verbatim places and both notations, and all strings of up to 2 (3) of 19 escapes in 21 text places" + TRUST),
 "P18": ("model_checking", "explicit-state exploration, to closure of the state graph, of the real scripts in a browser stand-in, every transition compared with a model of collapsing", "Exhaustive: every state reachable by clicks on collapse controls and menu entries, on pages of one and two of 60 block templates, all proof and section trees up to the bound; trusts the DOM stand-in mc/ui/dom.mjs"),
 "P19": ("model_checking", "explicit-state exploration of the real scripts in a browser stand-in under keys and clicks, every transition compared with a model of focus and keys", "Exhaustive up to the depths and state limits given per page; trusts the DOM stand-in mc/ui/dom.mjs; scrolling is not judged"),
 "P23": ("model_checking", "bounded exhaustive exploration of documents and of pairs of pointer, focus and scroll events, each run on the real scripts in a browser stand-in", "Exhaustive for 48 kinds of target times labels, containers and pairs of kinds, all section trees up to the bound and all pairs of events on them; trusts the DOM, jQuery and tooltipster stand-ins mc/ui/dom.mjs and mc/ui/jq.mjs"),
 "P24": ("model_checking", "fault injection: all subsets of scripts that fail to load, and all interleavings of arriving network scripts with the reader's actions, run on the real scripts in a browser stand-in", "Exhaustive over the 2^7 subsets of scripts times jQuery/tooltipster for the pages listed (single faults and pairs for pages of every block), over arrival orders with all sequences of the listed keys and clicks up to closure, and over subsets of up to 3 (thorough 5) algorithms; while MathJax is awaited no action is judged; layout is not modelled" + TRUST),
 "P25": ("model_checking", "explicit enumeration of the states of every page of a bounded space of documents, the cascade of the linked stylesheets computed on the real page in each", "Exhaustive over pages of one and (quick: some) two of 41 block templates and small proofs in both views, times one element hidden, hovered, focused, collapsed or opened; only display, visibility, opacity, content and list markers are computed; trusts the cascade mc/css.py" + TRUST),
 "P20": (*DOC, "Exhaustive for all block sequences up to the bound over 38 templates and all nestings and list/table/figure shapes listed; says nothing about block contents outside the templates" + TRUST),
}
