"""P17: options do what they say and nothing else."""
import io
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
from itertools import combinations, product

import rsm
import rsm.cli
from core import Result, Violation
from htmltree import parse
from procs import forked
from project import text_of

PROPERTY = "P17"
RULE = ("(a) the three tools x 10 manuscripts x string or file x every combination of --handrails, --silent, 0 to 3 times -v, --log-no-timestamps, "
        "--log-no-lineno and the formats; every option in each of its spellings before and after the source, every pair in both orders; unknown options and calls without, or with two, sources; (b) the three library "
        "functions x the same manuscripts x every combination of their parameters with 7 log levels; (c) the files of 12 encodings and line ends in two locales, "
        "and rsm-make --serve with every subset of options: the page, what is printed, the exit status and every line logged are compared with the page of the "
        "same text and with the log records filtered and formatted by hand; trivial: none")
ASSUMPTIONS = ["colours are not compared", "what a log record says is taken from a run that logs everything", "rsm-lint always shows lint messages",
               "lines end in \\n", "with -vv or level DEBUG the syntax trees are printed before the page, as documented"]

DOCS = {
    "quiet": ":rsm:\n  :title: T\n\nword *x* $a < b$ <b> &amp; \\* é中😀\n\n::\n",
    "toc": ":rsm:\n  :title: T\n\nword\n\n:toc:\n\n## One\n  :label: one\n\n:theorem:\n  :label: t\n\nstatement\n\n::\n\nsee :ref:t::\n\n::\n",
    "lint": ":rsm:\n\nword\n\n## One\n\nword\n\n$$\nx\n$$\n\n### Two\n\nword\n\n::\n",
    "warn": ":rsm:\n\nsee :ref:nowhere:: and :cite:nothing::\n\n:theorem:\n  :label: t\n\nx\n\n::\n\n:lemma:\n  :label: t\n\ny\n\n::\n\n::\n",
    "cst": ":rsm:\n  :title: T\n\nword # word\n\nword é中😀 # word\n\n::\n",
    "error": ":rsm:\n  :title: T\n\n:theorem:\n\nword\n",
    "odd": ":rsm:\n  :title: {T\n\nsee :ref:nowhere,%s {x::\n\n::\n",
    "odd2": ":rsm:\n  :label: %d\n  :title: T\n\n:theorem:\n  :label: %(x)s\n\nx\n\n::\n\nsee :ref:a b::, :ref:\"q\"\\'::\n\n::\n",
    "bib": ":rsm:\n  :title: T\n\nsee :cite:k1:: and :cite:nothing::\n\n:bibliography: ::\n\n::\n\n:bibtex:\n\n@book{k1,\n  title={First},\n  author={Ann},\n}\n\n::\n",
    "tail": ":rsm:\n\nword\n\n\n::",
}
TOOLS = ("render", "lint", "make")
FORMATS = (None, "rsm", "plain", "json", "lint")
LEVELS = (0, 10, 20, 25, 30, 40, 50)
LINT = 25
NAMES = {10: "DBG", 20: "INF", 25: "LINT", 30: "WRN", 40: "ERROR", 50: "CRITICAL"}
ENCODED = {
    "plain": "word", "latin": "é", "cjk": "中", "astral": "😀", "combining": "e\u0301", "rtl": "\u05d0\u200f", "nbsp": "a\u00a0b", "zwsp": "a\u200bb",
    "ls": "a\u2028b", "nel": "a\u0085b", "long": "é" * 9000, "split": "a" * 8150 + "中" * 50,
}
LOCALES = {"utf8": {"LC_ALL": "C.UTF-8", "PYTHONUTF8": "1"}, "c": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}}


# --- running -------------------------------------------------------------------------------

def captured(fn):
    """What fn returns, prints to either stream, and the exception or exit code it ends with."""
    out, err = io.StringIO(), io.StringIO()
    sys.stdout, sys.stderr = out, err
    value = code = None
    try:
        value = fn()
    except SystemExit as e:
        code = e.code
    except Exception as e:  # noqa: BLE001
        code = f"{type(e).__name__}: {e}"
    finally:
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    return value, out.getvalue(), err.getvalue(), code


def in_dir(doc, fn, name="doc.rsm"):
    """The result of fn in a fresh directory with the manuscript, and the page built there."""
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    try:
        os.chdir(d)
        if os.path.dirname(name):
            os.makedirs(os.path.dirname(name))
        with open(name, "w", encoding="utf-8", newline="") as f:
            f.write(DOCS.get(doc, doc))
        res = fn()
        page = None
        if os.path.exists("index.html"):
            with open("index.html", encoding="utf-8", newline="") as f:
                page = f.read()
        names = sorted(os.listdir("."))
        return res, page, names
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


class Collect(logging.Handler):
    def __init__(self):
        super().__init__(0)
        self.records = []

    def emit(self, r):
        self.records.append({k: getattr(r, k, None) for k in ("name", "levelno", "levelname", "filename", "lineno", "start_row", "start_col", "end_row", "end_col")}
                            | {"msg": r.getMessage()})


_ref = {}


def reference(tool, doc, handrails, source):
    """The records of a run that logs everything, and its pages."""
    key = (tool, doc, handrails, source)
    if key not in _ref:
        def go():
            c = Collect()
            logging.getLogger().addHandler(c)
            logging.Logger.isEnabledFor = lambda self, level: self.name.split(".")[0] == "RSM"
            kw = {} if tool == "lint" else {"handrails": handrails}
            if source:
                kw["source"] = DOCS[doc]
            else:
                kw["path"] = "doc.rsm"
            (value, _, _, _), page, _ = in_dir(doc, lambda: captured(lambda: getattr(rsm, tool)(loglevel=logging.DEBUG, **kw)))
            return c.records, value if tool == "render" else page
        _ref[key] = forked(go)
    return _ref[key]


_pages = {}


def page_of(text, handrails):
    key = (text, handrails)
    if key not in _pages:
        _pages[key] = forked(lambda: captured(lambda: rsm.render(source=text, handrails=handrails))[0])
    return _pages[key]


# --- what should be logged -----------------------------------------------------------------

def pattern(r, fmt, time, lineno):
    """A regular expression for the line of a record."""
    esc = re.escape
    start = r["start_row"] is not None
    if fmt == "plain":
        return esc(r["msg"])
    if fmt == "lint":
        at = f"{r['start_row']}:{r['start_col']}" if start else "1:1"
        return esc(f"src:{at}: {r['levelname']}: {r['msg']}")
    if fmt == "rsm":
        point = ""
        if start:
            point = esc(f" | ({r['start_row']}, {r['start_col']})")
            if r["end_row"] is not None:
                point += esc(f" - ({r['end_row']}, {r['end_col']})")
            point += r" \| "
        return ((r"\d\d:\d\d:\d\d " if time else "") + esc(f"{r['name']} {r['levelname']:<3} | {r['msg']}") + point
                + (esc(f" ({r['filename']}:{r['lineno']})") if lineno else ""))
    raise ValueError(fmt)


def check_log(text, records, fmt, time, lineno):
    """What is wrong with the lines logged."""
    if fmt == "json":
        lines = text.splitlines()
        if len(lines) != len(records):
            return f"{len(lines)} lines logged for {len(records)} records"
        for line, r in zip(lines, records):
            want = {"name": r["name"], "level": r["levelname"], "msg": r["msg"], "filename": r["filename"]}
            if lineno:
                want["lineno"] = r["lineno"]
            try:
                got = json.loads(line)
            except ValueError:
                return f"not JSON: {line!r}"
            if time and not re.fullmatch(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3}", str(got.pop("time", None))):
                return f"no time in {line!r}"
            if got != want:
                return f"logged {got}, not {want}"
        return None
    text = re.sub("\x1b\\[[\\d;]*m", "", text) if fmt == "rsm" else text
    pos = 0
    for r in records:
        m = re.compile(pattern(r, fmt, time, lineno) + "\n").match(text, pos)
        if not m:
            return f"after {text[:pos][-60:]!r} logged {text[pos:pos + 120]!r} for the record {r}"
        pos = m.end()
    if pos != len(text):
        return f"logged too much: {text[pos:pos + 150]!r}"
    return None


# --- cases -------------------------------------------------------------------------------

SPELL = {
    "handrails": (["-r"], ["--handrails"], ["--handr"]), "silent": (["-s"], ["--silent"]), "v1": (["-v"], ["--verbose"]), "v2": (["-vv"], ["-v", "-v"], ["--verbose", "-v"]),
    "time": (["--log-no-timestamps"],), "lineno": (["--log-no-lineno"],), "json": (["--log-format", "json"], ["--log-format=json"]),
    "string": (["-c"], ["--string"]),
}


def cases(tier):
    quick = tier == "quick"
    for doc, tool in product(DOCS, TOOLS):
        for string, hr, silent, v, time, lineno, fmt in product((True, False), (False, True), (False, True), range(4), (True, False), (True, False), FORMATS):
            odd = (not string) + hr + silent + (v > 0) + (not time) + (not lineno) + (fmt is not None)
            if quick and odd > 3 and (tool == "make" or doc not in ("warn", "lint")):
                continue
            yield ("cli", doc, tool, string, hr, silent, v, time, lineno, fmt)
        if tool == "make" and quick and doc not in ("warn", "lint", "quiet"):
            continue
        for string, hr, time, lineno, fmt, level, extra in product((True, False), (False, True), (True, False), (True, False), FORMATS, LEVELS, (False, True)):
            if not (extra and (tool == "lint")) and not (tool == "lint" and hr) and (not quick or (hr or fmt in (None, "rsm") or level in (25, 30)) and (doc == "warn" or level in (10, 25, 40) and time)):
                yield ("lib", doc, tool, string, hr, time, lineno, fmt, level, extra)
    for tool, doc in product(TOOLS, ("warn", "lint")):
        for a, b in combinations(SPELL, 2):
            for x, y in product(SPELL[a], SPELL[b]):
                for order in range(6):
                    if {a, b} != {"v1", "v2"}:
                        yield ("spell", doc, tool, tuple(x), tuple(y), order)
    for enc, loc, tool in product(ENCODED, LOCALES, ("render", "make")):
        yield ("locale", enc, loc, tool)
    for name in ("doc.rsm", "a b.rsm", "sub/doc.rsm", "it's.rsm", "-x.rsm", "é.rsm", "$HOME.rsm", "a*b.rsm"):
        for opts in ((), ("-v",), ("--log-format", "json"), ("-r", "-vv", "-s", "--log-no-lineno")) if not quick or name == "doc.rsm" else ((), ("-v",)):
            yield ("serve", name, opts)
    for bad in BAD:
        for tool in TOOLS:
            yield ("bad", tool, bad)
    for tool in TOOLS:
        for kw in ({}, {"source": DOCS["quiet"], "path": "doc.rsm"}, {"source": ""}, {"path": ""}, {"source": "", "path": ""}, {"path": "none.rsm"}):
            yield ("misuse", tool, tuple(kw.items()))


BAD = ((), ("--log-format", "xml"), ("--nothing",), ("--log-format",), ("a", "b"), ("-c",))


def describe(case):
    return repr(case) + ("\n" + DOCS[case[1]] if case[1] in DOCS else "")


def run(case):
    return {"cli": run_cli, "lib": run_lib, "spell": run_spell, "locale": run_locale, "serve": run_serve, "bad": run_bad, "misuse": run_misuse}[case[0]](*case[1:])


def tool_main(tool, args):
    sys.argv = [f"rsm-{tool}", *args]
    return getattr(rsm.cli, tool)()


def expected(tool, doc, hr, string, threshold):
    records, page = reference(tool, doc, hr, string)
    return [r for r in records if r["levelno"] >= threshold], page


def judge(got, tool, doc, string, hr, silent, threshold, fmt, time, lineno):
    (value, out, err, code), page, names = got
    hr = hr or tool == "make"
    records, _ = expected(tool, doc, hr, string, threshold)
    body = page_of(DOCS[doc], hr)
    bad = []
    want = body + "\n" if tool == "render" and body and not silent else ""
    if out != want and not (threshold <= 10 and out.endswith(want)):
        bad.append(Violation("printed", f"printed {out[:80]!r}, not {want[:80]!r}"))
    w = check_log(err, records, fmt or ("lint" if tool == "lint" else "rsm"), time, lineno)
    if w:
        bad.append(Violation("log", w))
    if code is not None or value not in (0, None):
        bad.append(Violation("status", f"ends with {code or value}"))
    if (page is not None) != (tool == "make" and bool(body)):
        bad.append(Violation("built", f"files in the directory: {names}"))
    elif page is not None and body_of(page) != body_of(body):
        bad.append(Violation("page", "index.html is not the page of the same text"))
    if tool != "make" and names != ["doc.rsm"]:
        bad.append(Violation("built", f"files in the directory: {names}"))
    return Result(bad, (tool, bool(out), len(records), bool(page)), execs=1, steps=1)


def body_of(page):
    """The body of a page without the div that has its source."""
    i = page.find("<body>")
    page = page[i:page.rfind("</body>")]
    return re.sub(r'<div class="rsm-source hide">[^<]*(?:<(?!/div>)[^<]*)*</div>', "", page).split()


def run_cli(doc, tool, string, hr, silent, v, time, lineno, fmt):
    args = ["-c", DOCS[doc]] if string else ["doc.rsm"]
    args += ["-r"] * hr + ["-s"] * silent + ["-v"] * v + ["--log-no-timestamps"] * (not time) + ["--log-no-lineno"] * (not lineno)
    args += ["--log-format", fmt] if fmt else []
    got = forked(lambda: in_dir(doc, lambda: captured(lambda: tool_main(tool, args))))
    threshold = max(10, 30 - 10 * v)
    return judge(got, tool, doc, string, hr, silent, min(threshold, LINT) if tool == "lint" else threshold, fmt, time, lineno)


def run_spell(doc, tool, x, y, order):
    string = any(o in ("-c", "--string") for o in x + y)
    src = (DOCS[doc] if string else "doc.rsm",)
    args = [o for part in ((x, y, src), (y, x, src), (x, src, y), (y, src, x), (src, x, y), (src, y, x))[order] for o in part]
    opts = x + y
    v = sum(2 if o == "-vv" else 1 for o in opts if o in ("-v", "-vv", "--verbose"))
    got = forked(lambda: in_dir(doc, lambda: captured(lambda: tool_main(tool, args))))
    threshold = 30 - 10 * v
    return judge(got, tool, doc, string, any(o.startswith(("-r", "--handr")) for o in opts), any(o in ("-s", "--silent") for o in opts),
                 min(threshold, LINT) if tool == "lint" else threshold, "json" if any("json" in o for o in opts) else None,
                 "--log-no-timestamps" not in opts, "--log-no-lineno" not in opts)


def run_lib(doc, tool, string, hr, time, lineno, fmt, level, extra):
    kw = dict(loglevel=level, log_time=time, log_lineno=lineno)
    if tool != "lint":
        kw["handrails"] = hr
    if level in (10, 30, 50):
        # what has its default value is left out
        kw = {k: v for k, v in kw.items() if v != dict(loglevel=30, log_time=True, log_lineno=True, handrails=tool == "make")[k]}
    if fmt:
        kw["log_format"] = fmt
    if string:
        kw["source"] = DOCS[doc]
    else:
        kw["path"] = "doc.rsm"
    if extra:
        kw["add_source" if tool == "render" else "lint"] = tool == "render"
    (value, out, err, code), page, names = forked(lambda: in_dir(doc, lambda: captured(
        lambda: getattr(rsm, tool)(**kw) if tool != "lint" else (rsm.lint(**kw), None)[1])))
    records, _ = reference(tool, doc, hr, string)
    threshold = max(10, min(level, LINT) if tool == "lint" else level)
    records = [r for r in records if r["levelno"] >= threshold and not (tool == "make" and extra and from_linter(r))]
    bad = []
    w = check_log(err, records, fmt or "rsm", time, lineno)
    if w:
        bad.append(Violation("log", w))
    if code is not None:
        bad.append(Violation("status", f"ends with {code}"))
    if out and level > 10:
        bad.append(Violation("printed", f"prints {out[:80]!r}"))
    body = page_of(DOCS[doc], hr)
    have = value if tool == "render" else page
    if tool == "lint":
        if value is not None or page is not None:
            bad.append(Violation("built", f"lint gives {value}, {names}"))
    elif not body:
        if have:
            bad.append(Violation("page", f"a page for what was rejected: {have[:80]!r}"))
    elif have is None or body_of(have) != body_of(body):
        bad.append(Violation("page", "not the page of the same text"))
    elif tool == "render" and not extra and have != body:
        bad.append(Violation("page", "not the page of the same text"))
    else:
        divs = [e for e in parse(have[have.find("<body>"):have.rfind("</body>") + 7]).walk() if "rsm-source" in (e.attrs.get("class") or "").split()]
        want = [DOCS[doc]] if hr and (extra or tool == "make") else []
        texts = [text_of(e) for e in divs]
        if texts != want:
            bad.append(Violation("source", f"the source in the page is {texts}, not {want}"))
    return Result(bad, (tool, len(records), bool(have)), execs=1, steps=1)


def from_linter(r):
    return r["filename"] == "linter.py" or r["msg"] == "Executing task linter..."


def run_locale(enc, loc, tool):
    text = f":rsm:\n  :title: {ENCODED[enc][:5]}\n\nword {ENCODED[enc]}\n\n::\n"
    env = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHONUTF8", "PYTHONIOENCODING"))} | LOCALES[loc]

    def go():
        code = ("import sys, rsm, rsm.cli; sys.argv = ['rsm-make', 'doc.rsm']; rsm.cli.make()" if tool == "make" else
                "import rsm; p = rsm.render(path='doc.rsm'); open('page', 'w', encoding='utf-8', newline='').write(p)")
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", code], env=env, capture_output=True)
        page = None
        if os.path.exists("page"):
            with open("page", encoding="utf-8", newline="") as f:
                page = f.read()
        return p.returncode, p.stderr.decode("utf-8", "replace"), page
    (code, err, page), built, _ = in_dir(text, go)
    want = page_of(text, tool == "make")
    bad = []
    if code or body_of(page or built or "") != body_of(want):
        bad.append(Violation("locale", f"from a file in the {loc} locale the page is not that of the same text; exit {code}, {err[-200:]}"))
    return Result(bad, (tool, loc), execs=1, steps=1)


def run_serve(name, opts):
    """rsm-make --serve with a stand-in for the server; then what it would run on a change."""
    doc = "lint"
    script = os.path.join(os.path.dirname(sys.executable), "rsm-make")

    def go():
        seen = []

        class Server:
            def watch(self, path, func=None, *a, **k):
                seen.append(("watch", path, func))

            def serve(self, *a, **k):
                seen.append(("serve", k.get("root", a[0] if a else None)))

        sys.modules["livereload"].Server = Server
        path = "./" + name if name.startswith("-") else name
        sys.argv = [script, "--serve", *opts, path]
        res = captured(rsm.cli.make)
        built = os.path.exists("index.html")
        if built:
            os.remove("index.html")
        funcs = [s[2] for s in seen if s[0] == "watch"]
        paths = [s[1] for s in seen if s[0] == "watch"]
        for f in funcs:
            captured(f)
        return res, built, paths == [path], [s for s in seen if s[0] == "serve"]
    (res, built, paths, served), page, names = forked(lambda: in_dir(doc, go, name))
    bad = []
    if res[3] is not None or not built or not paths or len(served) != 1:
        bad.append(Violation("serve", f"--serve: exit {res[3]}, built {built}, watches the source {paths}, serves {served}"))
    elif page is None or body_of(page) != body_of(page_of(DOCS[doc], True)):
        bad.append(Violation("rebuild", "on a change of the source --serve does not build its page"))
    return Result(bad, ("serve", len(opts)), execs=2, steps=2)


def run_bad(tool, args):
    (value, out, err, code), page, names = forked(lambda: in_dir("quiet", lambda: captured(lambda: tool_main(tool, [*args, "doc.rsm"] if "-" in "".join(args) and args != ("-c",) and args != ("--log-format",) else list(args)))))
    bad = []
    if code in (None, 0) or page is not None or out:
        bad.append(Violation("usage", f"accepted: {code}, {out[:60]!r}, {names}"))
    return Result(bad, ("bad", str(code)[:5]), execs=1, steps=1)


def run_misuse(tool, kw):
    """Neither or both of a source and a path, or a path to nothing."""
    (value, out, err, code), page, names = forked(lambda: in_dir("quiet", lambda: captured(lambda: getattr(rsm, tool)(**dict(kw)))))
    bad = []
    if code in (None, 0) or page is not None or out or value:
        bad.append(Violation("misuse", f"{tool} with {sorted(dict(kw))} accepted: {code}, {str(value)[:60]!r}, {names}"))
    return Result(bad, ("misuse", str(code)[:5]), execs=1, steps=1)
