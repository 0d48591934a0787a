"""P16: a build writes a complete page, faithful to the source, or reports failure."""
import ctypes
import io
import json
import logging
import os
import re
import shutil
import subprocess
import sys
import tempfile
from itertools import product

import rsm
from core import HERE, Result, Violation
from htmltree import BadHTML, parse
from procs import forked
from project import text_of

PROPERTY = "P16"
RULE = ("(a) all manuscripts over 14 titles, 14 sets of images and 10 bodies, from a string and from files in three places, in both views, with and without "
        "linting, with and without an earlier build in the directory; (b) for 6 builds, every file operation (open, read, write, close, mkdir) made to fail, "
        "to be cut short, and to be the point at which the process dies (before it, or half way through a write), in thorough also every pair of such "
        "faults in two builds in a row; after each the inputs are untouched, a build that reports success is complete, and a build without fault completes; "
        "trivial: none")
ASSUMPTIONS = ["images are looked for in the working directory", "file operations are those Python makes through the C library", "a build succeeds when it "
               "neither raises nor logs an error"]

TITLES = ("", "  :title: Plain title\n", "\n# Short title\n", "  :title: a < b & c > d\n", "  :title: \"q\" 'r' `s`\n", "  :title: <title><script>\n", "  :title: <h1>x <h1 class=a>\n",
          "  :title: \u00e9\u4e2d\U0001f600 \u03b1\n", "  :title: &amp; &lt;\n", "  :title: __TITLE_PLACEHOLDER__ \\1 \\g<0>\n", "  :title: two  blanks\n",
          "  :date: 2020-01-01\n  :title: Dated\n", "  :title: src=\"no.png\"\n", "  :title: T\n  :label: lab\n")
IMAGES = ((), ("a.png",), ("a.png", "b.jpg"), ("a.png", "a.png"), ("sub/c.png",), ("sub/deep/c.png", "a.png"), ("with blank.png",), ("q&r.png",), ("\u00e9.png",),
          ("100%.png",), ("./a.png",), ("a'b.png",), ("static/a.png",), ("a.png", "sub/../a.png"))
MISSING = (("missing.png",), ("a.png", "missing.png"), ("missing/a.png",), ("../missing.png",), ("https://example.com/missing.png",), ("/missing.png",), ("a.png/missing.png", "a.png"))
MANY = tuple(f"d{i % 3}/i{i}.png" for i in range(12)), tuple(f"i{i}.png" for i in range(40)), ("big.png", "a.png"), ("a.png",) * 12, ("x/" * 12 + "deep.png",), ("i.png",) + tuple(f"n{i}.png" for i in range(11))
CLASH = (("a.png", "sub/a.png"), ("sub/a.png", "a.png", "b.jpg"), ("a.png", "static/a.png"), ("static/a.png", "a.png"))
BODIES = {
    "none": "", "text": "word\n\n", "src": "a `<img src=\"no.png\">` <img src=\"no.png\">\n\n", "code": "```\n<img src=\"no.png\">\n<h1>no</h1>\n```\n\n",
    "sec": "## Sec\n  :label: s\n\n:theorem:\n  :label: t\n\nw $x < y$\n\n::\n\n", "cap": ":figure:\n  :path: a.png\n\n:caption: c src=\"no.png\" > x\n\n::\n\n",
    "h1": "text h1 <h1>no<h1>\n\n", "uni": "\u00e9\u4e2d\U0001f600 \u2028 \u00a0x\n\n", "bib": "see :cite:k1::\n\n",
    "lint": "$$\nx\n$$\n\n## Unlabelled\n\n",
}
BIB = ":bibliography: ::\n\n::\n\n:bibtex:\n\n@book{k1,\n  title={First src=\"no.png\"},\n  author={Ann},\n}\n\n::\n"
REJECTED = {"syntax": ":rsm:\n\n:theorem:\n\n:unknown:\n\n$$ x\n", "prev": ":rsm:\n\n:proof:\n\n:step: by :prev2: w\n\n::\n\n::\n\n::\n"}
VIA = ("string", "file", "dir", "abs")
STATIC = os.path.join(os.path.dirname(os.path.abspath(rsm.__file__)), "static")
OPS = " open read write close mkdir copy".split(" ")
MODES = ("fails", "kills", "tears", "is short")


def source(title, images, body):
    out = ":rsm:\n" + TITLES[title]
    out += "\n" if not out.endswith("\n\n") else ""
    for i, p in enumerate(images):
        out += f":figure:\n  :path: {p}\n  :label: f{i}\n\n:caption: cap{i}\n\n::\n\n"
    out += BODIES[body]
    return out + (BIB if body == "bib" else "::\n")


# --- a directory to build in -------------------------------------------------------------

def write(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def contents(path):
    return f"image {path}\n".encode() * (3 if "big" not in path else 80000)


def fill(d, src, images, via):
    """The files before a build; {relative path: bytes}, and the arguments of rsm.make."""
    files = {}
    for p in images:
        if "missing" not in p:
            files[os.path.normpath(p)] = contents(os.path.normpath(p))
    files["other.txt"] = b"untouched"
    if via == "string":
        args = dict(source=src)
    else:
        name = {"file": "doc.rsm", "dir": "texts/doc.rsm", "abs": "doc.rsm"}[via]
        files[name] = src.encode()
        args = dict(path=os.path.join(d, name) if via == "abs" else name)
    for k, v in files.items():
        write(os.path.join(d, k), v)
    return files, args


def listing(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = f.read()
    return out


def errors(text):
    """The errors in what a build logged."""
    out = []
    for line in text.splitlines():
        try:
            r = json.loads(line)
        except ValueError:
            out.append(line)
            continue
        if r["level"] in ("ERROR", "CRITICAL"):
            out.append(r["msg"])
    return "; ".join(x for x in out if x.strip())


def build(d, args, arm=None, **opts):
    """Builds in d; what it reports."""
    os.chdir(d)
    err = io.StringIO()
    sys.stdout = sys.stderr = err
    lib = ctypes.CDLL(None)
    if arm:
        lib.rsm_fault_arm(*arm)
    try:
        rsm.make(**args, log_format="json", loglevel=logging.ERROR, **opts)
        report = None
    except Exception as e:  # noqa: BLE001
        report = f"{type(e).__name__}: {e}"
    finally:
        n = lib.rsm_fault_disarm() if arm else 0
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    if report is None:
        report = errors(err.getvalue()) or None
    return report, [lib.rsm_fault_kind(i) for i in range(1, n + 1)]


# --- what a complete build is --------------------------------------------------------------

def module_names(js):
    """Files that a script of the page loads."""
    text = re.sub(r"//.*|/\*.*?\*/", "", js)
    return set(re.findall(r"""(?:from|import)\s*\(?\s*["'`](?:\$\{path\}|/static/|\./)([\w.-]+\.js)""", text))


def needed(page):
    """Static files the page loads, directly or by import."""
    todo = []
    for tag in re.findall(r"<(?:link|script)\b[^>]*>", page):
        m = re.search(r'(?:href|src)="/?static/([^"]*)"', tag)
        if m:
            todo.append(m.group(1))
    head = page[:page.index("</head>")]
    todo += module_names(head)
    seen = set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        p = os.path.join(STATIC, n)
        if n.endswith(".js") and os.path.exists(p) and os.path.getsize(p) < 60000:
            with open(p, encoding="utf-8") as f:
                todo += module_names(f.read())
    return seen


def expected_body(src, handrails):
    return rsm.render(source=src, handrails=handrails, add_source=True, loglevel=logging.CRITICAL)


def judge(d, files, src, images, handrails, body):
    """What is wrong with the directory after a successful build."""
    now = listing(d)
    for k, v in files.items():
        if now.get(k) != v:
            clash = k.startswith("static/") and any(os.path.basename(p) == os.path.basename(k) and os.path.normpath(p) != k for p in images)
            return "input-clash" if clash else "inputs", f"the build changed {k}"
    if "index.html" not in now:
        return "page", "no index.html"
    page = now["index.html"].decode("utf-8")
    try:
        dom = parse(page.replace("<!DOCTYPE html>", ""))
    except BadHTML as e:
        return "page", f"index.html is malformed: {e}"
    start, end = page.find("</head>"), page.rfind("</html>")
    if start < 0 or end < 0 or page[start + 7:end].strip() != body.strip():
        return "body", "the body of index.html is not what was rendered"
    h1 = [text_of(e).strip() for e in parse(body).walk() if e.tag == "h1"]
    title = [text_of(e).strip() for e in dom.walk() if e.tag == "title"]
    if title != (h1[:1] or [""]):
        return "title", f"the title is {title}, the heading {h1}"
    want = {"index.html", *files}
    for n in needed(page):
        if not os.path.isfile(os.path.join(STATIC, n)):
            return "static", f"the page loads static/{n}, which does not exist"
        with open(os.path.join(STATIC, n), "rb") as f:
            if now.get(f"static/{n}") != f.read():
                return "static", f"static/{n}, which the page loads, is {'missing' if f'static/{n}' not in now else 'not the right file'}"
    extra = set(now) - want
    allowed = {f"static/{n}" for n in os.listdir(STATIC)} | {f"static/{os.path.basename(p)}" for p in images}
    if extra - allowed:
        return "extra", f"the build also wrote {sorted(extra - allowed)}"
    for p in images:
        copies = [k for k, v in now.items() if k.startswith("static/") and v == contents(os.path.normpath(p))]
        if not copies:
            same = {contents(os.path.normpath(q)) for q in images if os.path.basename(q) == os.path.basename(p)}
            return "image-clash" if now.get("static/" + os.path.basename(p)) in same else "image", f"no copy of {p}"
        if all(os.path.basename(k) != os.path.basename(p) for k in copies):
            return "image", f"the copy of {p} is called {copies}"
    return None


# --- cases -------------------------------------------------------------------------------

BUILDS = (
    ("string", 1, (), "text", True, False), ("file", 1, ("a.png",), "text", True, False), ("file", 3, ("a.png", "sub/c.png"), "bib", True, False),
    ("file", 1, ("a.png",), "sec", False, True), ("string", 7, ("b.jpg",), "uni", True, True), ("abs", 0, (), "lint", False, False),
)
COUNT = {}


def prepare(tier):
    if "RSM_FAULT" not in os.environ:
        d = tempfile.mkdtemp(prefix="rsmmc-fault-")
        so = os.path.join(d, "fault.so")
        subprocess.run(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(HERE, "native", "fault.c"), "-ldl"], check=True)
        env = dict(os.environ, RSM_FAULT=d, LD_PRELOAD=so)
        sys.stdout.flush()
        os.execve(sys.executable, [sys.executable, "-W", "ignore", *sys.argv], env)
    shutil.rmtree(os.environ["RSM_FAULT"], ignore_errors=True)
    with tempfile.TemporaryDirectory(prefix="rsmmc-") as d:
        home = os.getcwd()
        build(d, dict(source=":rsm:\n\n::\n"))  # load what is loaded at first use
        os.chdir(home)
    for i in range(len(BUILDS)):
        COUNT[i] = forked(lambda: count(i))


def count(i):
    via, t, images, body, hr, again = BUILDS[i]
    with tempfile.TemporaryDirectory(prefix="rsmmc-") as d:
        _, args = fill(d, source(t, images, body), images, via)
        if again:
            build(d, args, handrails=hr)
        return build(d, args, arm=(0, 0), handrails=hr)[1]


def pages(tier):
    quick = tier == "quick"
    for t, imgs, body in product(range(len(TITLES)), IMAGES, BODIES):
        odd = (t != 1) + (imgs != ()) + (body != "text")
        if quick and odd > 2:
            continue
        for via, hr, lint, again in product(VIA, (True, False), (True, False), (False, True)):
            if not odd or (via, hr, lint, again) in (("string", True, True, False), ("file", False, False, True)) or not quick and (odd < 3 or lint == hr == (not again)):
                yield ("page", via, t, imgs, body, hr, lint, again)


def cases(tier):
    yield from pages(tier)
    for imgs, via, hr, again in product(MANY, VIA, (True, False), (False, True)):
        yield ("page", via, 1, imgs, "text", hr, True, again)
    for imgs in MISSING + CLASH:
        for via, body, hr in product(VIA, BODIES, (True, False)):
            yield ("page", via, 1, imgs, body, hr, True, False)
    for r in REJECTED:
        for via, hr, again in product(VIA, (True, False), (False, True)):
            yield ("rejected", r, via, hr, again)
    for i in range(len(BUILDS)):
        n = len(COUNT[i])
        for k in range(1, n + 1):
            for m in range(4):
                if relevant(COUNT[i][k - 1], m):
                    yield ("fault", i, ((k, m),))
        if tier != "quick" and i in (1, 3):
            for k, j in product(range(1, n + 1), repeat=2):
                for m, p in product((0, 1, 2), repeat=2):
                    if relevant(COUNT[i][k - 1], m) and relevant(COUNT[i][j - 1], p) and (i == 1 or m):
                        yield ("fault", i, ((k, m), (j, p)))


def relevant(kind, mode):
    """A tear only matters to a write, a short count to a read or write."""
    return mode < 2 or OPS[kind] in ("write", "copy") or mode == 3 and OPS[kind] == "read"


def describe(case):
    if case[0] == "page":
        return f"make from {case[1]}, handrails={case[5]}, lint={case[6]}, built before={case[7]}\n" + source(*case[2:5])
    if case[0] == "fault":
        via, t, images, body, hr, again = BUILDS[case[1]]
        how = "; then ".join(f"operation {k} {MODES[m]}" for k, m in case[2])
        return f"make from {via}, built before={again}: {how}\n" + source(t, images, body)
    return repr(case)


def run(case):
    home = os.getcwd()
    d = tempfile.mkdtemp(dir=home)
    try:
        return {"page": run_page, "rejected": run_rejected, "fault": run_fault}[case[0]](case, d)
    finally:
        os.chdir(home)
        shutil.rmtree(d, ignore_errors=True)


def run_page(case, d):
    _, via, t, images, body, hr, lint, again = case
    src = source(t, images, body)
    if body == "cap":
        images = images + ("a.png",)
    files, args = fill(d, src, images, via)
    if again:
        build(d, dict(source=":rsm:\n  :title: Old\n\nold\n\n::\n"))
    report, _ = build(d, args, handrails=hr, lint=lint)
    missing = any("missing" in p for p in images)
    out = []
    if report is not None:
        if not missing:
            out.append(Violation("failed", f"the build failed: {report}"))
    elif missing:
        out.append(Violation("missing", "an image is missing, yet the build reports success"))
    else:
        bad = judge(d, files, src, images, hr, expected_body(src, hr))
        if bad:
            out.append(Violation(*bad))
    now = listing(d)
    if any(now.get(k) != v for k, v in files.items()) and not out:
        out.append(Violation("inputs", "the build changed its inputs"))
    return Result(out, (report is None, len(images)), execs=1 + again, steps=1 + again)


def run_rejected(case, d):
    _, r, via, hr, again = case
    files, args = fill(d, REJECTED[r], (), via)
    if again:
        build(d, dict(source=":rsm:\n  :title: Old\n\nold\n\n::\n"))
    before = listing(d)
    report, _ = build(d, args, handrails=hr)
    out = []
    if report is None:
        out.append(Violation("unreported", f"a manuscript that cannot be built ({r}) is not reported"))
    if listing(d) != before:
        out.append(Violation("rejected-writes", "a build that failed on its source wrote files"))
    return Result(out, ("rejected", report and report[:20]), execs=1 + again, steps=1)


def run_fault(case, d):
    _, i, faults = case
    via, t, images, body, hr, again = BUILDS[i]
    src = source(t, images, body)
    files, args = fill(d, src, images, via)
    if again:
        build(d, dict(source=":rsm:\n  :title: Old\n\nold\n\n::\n"))
    want = expected_body(src, hr)
    out = []
    seen = []
    for arm in faults:
        got = forked(lambda: build(d, args, arm=arm, handrails=hr)[0:1] or None)
        what = f"operation {arm[0]} ({OPS[COUNT[i][arm[0] - 1]]}) {MODES[arm[1]]}"
        now = listing(d)
        if any(now.get(k) != v for k, v in files.items()):
            out.append(Violation("inputs", f"{what}: the build changed its inputs"))
        if got is None:
            seen.append("died")
            if arm[1] not in (1, 2):
                out.append(Violation("died", f"{what}: the process died"))
        elif got[0] is None:
            seen.append("ok")
            bad = judge(d, files, src, images, hr, want)
            if bad:
                out.append(Violation("false-success", f"{what}, and the build reports success, but {bad[1]}"))
        else:
            seen.append("reported")
    os.chdir(d)
    report = forked(lambda: build(d, args, handrails=hr)[0:1])
    if report is None or report[0] is not None:
        out.append(Violation("no-recovery", f"after {what} a build without fault fails: {report}"))
    else:
        bad = judge(d, files, src, images, hr, want)
        if bad:
            out.append(Violation("no-recovery", f"after {what} a build without fault is incomplete: {bad[1]}"))
    return Result(out, (i, tuple(seen)), execs=len(faults) + 1, steps=len(faults) + 1)


def evidence():
    return {"fault_points": {f"build {i}": len(k) for i, k in COUNT.items()}}
