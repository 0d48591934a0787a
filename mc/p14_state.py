"""P14: results do not depend on history, reuse or concurrency."""
import io
import logging
import os
import pickle
import re
import subprocess
import sys
import tempfile
import threading
from math import gcd
from itertools import product

import rsm
import rsm.app
import rsm.transformer
import rsm.translator
import rsm.tsparser
from core import Result, Violation
from procs import forked

PROPERTY = "P14"
RULE = ("(a) all histories of calls up to the bound over 12 manuscripts that share labels and constructs (some rejected or erroneous), each rendered in "
        "either view, linted, built, rendered twice by one application or with reused parser, transformer and translator, each history in a process of its "
        "own, forked before any call; every call's result and output compared with those of the call alone; (b) every interleaving of two threads' renderings "
        "up to the preemption bound, at calls (and in thorough lines) of the package; (c) every call under other hash seeds; trivial: histories of one call")
ASSUMPTIONS = ["threads are switched only at calls, or lines, of the package's own Python code", "log lines of threads running at once are not compared",
               "objects are reused one call at a time"]

BIB = "\n:bibliography: ::\n\n::\n\n:bibtex:\n\n@article{k1,\n  title={First},\n  author={Ann},\n  year={2001},\n}\n\n@book{k2,\n  title={Second},\n  author={Bee},\n}\n\n::\n"
END = "\n::\n"
DOCS = {
    "A": ":rsm:\n  :title: Tit A\n\n## Sec\n  :label: a\n\n:theorem:\n  :title: N\n  :label: x\n\n\nhi $x$\n\n::\n\nsee :ref:x:: and :cite:k1:: :cite:k1,k2::.\n\n$$\n  :label: e\ny\n$$\n" + BIB,
    "B": ":rsm:\n\n# Tit B\n\n:figure:\n  :path: f.png\n  :label: x\n\n:caption: cap\n\n::\n\n## Sec\n  :nonum:\n  :label: e\n\n:lemma:\n  :label: a\n\n\nlem\n\n::\n\nsee :ref:x::, :ref:a,text:: and :ref:e::.\n" + END,
    "C": ":rsm:\n\n:lemma:\n  :label: l\n\n\nw\n\n::\n\n:proof:\n\n:step:\n  :label: s\n\n:let: $x$ ::\n\n:p:\n\n:step: :claim: $y$ ::\n\n::\n\n::\n\n::\n\n:step: by :prev: and :ref:s::, :claim: $z$ ::\n\n::\n\n::\n" + END,
    "D": ":rsm:\n  :title: Tit D\n\n:toc:\n\n::\n\n## One\n  :label: a\n\n### Two\n  :label: b\n\n#### Three\n\nw\n\n:appendix:\n\n## Four\n\n:theorem:\n\nw\n\n::\n" + END,
    "E": ":rsm:\n\nw\n$$\n  :label: e1\ny\n$$\n\n:table:\n  :label: x\n\n\n:thead:\n\n:tr: a : b ::\n\n::\n\n:tbody:\n\n:tr: c : d ::\n\n::\n\n:caption: cap\n\n::\n\n:enumerate:\n\n:item: one\n\n:item: two\n\n::\n\n:table:\n  :nonum:\n\n\n:tbody:\n\n:tr: a ::\n\n::\n\n::\n\nsee :ref:e1:: :ref:x::\n" + END,
    "F": ":rsm:\n\nw `x` $y$ :url:http://u,site:: *b* /i/ :span: {:strong:, :emphas:} s :: :note: n :: and :draft: d ::.\n\n```\n  :lang: python\nx = 1\n```\n\n:algorithm:\nz\n::\n\n:note: m ::\n" + END,
    "G": ":rsm:\n\n:theorem:\n  :label: x\n\n\nw\n\n::\n\n:lemma:\n  :label: x\n\n\nw\n\n::\n\n:ref:x:: :ref:nope:: :cite:nope::\n\n:section:\n  :label: x\n" + END,
    "H": ":rsm:\n\n:theorem:\n\n:unknown:\n\n$$ x\n",
    "I": ":rsm:\n\n:proof:\n\n:step:\n  :label: x\n\n:let: a ::\n\nby :prev2: done\n\n::\n\n::\n" + END,
    "J": ":rsm:\n\na # c\n\n:theorem:\n  :label: x\n\nw $x$\n\n::\n" + END,
    "K": ":rsm:\n  :title: Only\n\n::\n",
    "L": ":rsm:\n  :title: Tit L\n\n:author:\n  :name: Nam\n  :email: e@x\n::\n\n:abstract:\n  :keywords: {ka, kb}\n  :msc: {ma, mb}\n\nabs\n\n::\n\n:theorem:\n  :types: {ta, tb}\n  :label: a\n  :title: N\n\n\nw\n\n::\n\n:paragraph: {:types: {pa, pb}, :label: b} p\n\n:exercise:\n  :nonum:\n\n\nw\n\n::\n" + END,
}
HOW = ("plain", "hr", "obj", "objhr", "twice", "lint", "make")
OPS = tuple((d, h) for d in DOCS for h in HOW) + (("A", "json"), ("C", "info"), ("B", "file"), ("D", "debug"))
THREADS = (("A", "plain"), ("A", "hr"), ("C", "plain"), ("C", "hr"), ("B", "plain"), ("D", "hr"), ("G", "plain"), ("B", "hr"))


class Objects:
    """Pipeline objects reused along a history."""

    def __init__(self):
        self.parser = rsm.tsparser.TSParser()
        self.transformer = rsm.transformer.Transformer()
        self.translator = {False: rsm.translator.Translator(), True: rsm.translator.HandrailsTranslator(add_source=False)}


def call(op, objs):
    name, how = op
    src = DOCS[name]
    quiet = dict(log_time=False, log_lineno=False)
    if how in ("plain", "hr"):
        return rsm.render(source=src, handrails=how == "hr", **quiet)
    if how in ("obj", "objhr"):
        return objs.translator[how == "objhr"].translate(objs.transformer.transform(objs.parser.parse(src)))
    if how == "twice":
        app = rsm.app.ProcessorApp(plain=src, add_source=False, **quiet)
        app.run()
        return app.run()
    if how == "lint":
        rsm.lint(source=src, log_format="lint", **quiet)
        return ""
    if how == "make":
        home = os.getcwd()
        with tempfile.TemporaryDirectory(dir=home) as d:
            os.chdir(d)
            try:
                open("f.png", "w").close()
                rsm.make(source=src, **quiet)
                page = open("index.html", encoding="utf-8").read() if os.path.exists("index.html") else None
                return page, sorted(os.listdir("static")) if os.path.isdir("static") else None
            finally:
                os.chdir(home)
    if how == "json":
        return rsm.render(source=src, loglevel=logging.INFO, log_format="json", **quiet)
    if how == "info":
        return rsm.render(source=src, handrails=True, loglevel=logging.INFO, **quiet)
    if how == "debug":
        return rsm.render(source=src, loglevel=logging.DEBUG, log_format="plain", **quiet)
    if how == "file":
        with tempfile.NamedTemporaryFile("w", suffix=".rsm", encoding="utf-8") as f:
            f.write(src)
            f.flush()
            return rsm.render(path=f.name, **quiet)
    raise AssertionError(how)


def guarded(op, objs):
    try:
        return ("page", call(op, objs))
    except Exception as e:  # noqa: BLE001
        return ("raised", type(e).__name__, re.sub(r"0x[0-9a-f]+", "0x", str(e)))


# The streams are the same for all calls of a history: whoever keeps one goes on printing to it.
STREAMS = []


def observe(op, objs):
    """(result, what was printed)"""
    if not STREAMS:
        STREAMS.extend((io.StringIO(), io.StringIO()))
    out, err = STREAMS
    at = len(out.getvalue()), len(err.getvalue())
    sys.stdout, sys.stderr = out, err
    try:
        res = guarded(op, objs)
    finally:
        sys.stdout, sys.stderr = sys.__stdout__, sys.__stderr__
    if op[1].startswith("obj"):
        # without an application a syntax error is raised, not reported, and the log is not set up
        return (("page", "") if res[0] == "raised" and res[1] == "RSMParserError" else res), ""
    text = re.sub(r"0x[0-9a-f]+", "0x", out.getvalue()[at[0]:] + "\0" + err.getvalue()[at[1]:])
    return res, text


ALONE = {}
EVENTS = {}


def reference(op):
    """What the call must give: what it gives alone; reused objects as fresh ones."""
    return ALONE[op]


def prepare(tier):
    for op in OPS:
        ALONE[op] = forked(lambda: observe(op, Objects()))
    for op in THREADS:
        for grain in ("call", "line"):
            EVENTS[op, grain] = forked(lambda: count(op, grain))


def history(ops):
    objs = Objects()
    return [observe(op, objs) for op in ops]


# --- threads -----------------------------------------------------------------------------

HOME = os.path.dirname(os.path.abspath(rsm.__file__)) + os.sep
LOCKED = {"format", "_point", "formatTime", "emit", "flush", "filter", "handle"}  # run while logging holds its lock


def count(op, grain):
    s = Scheduler((op,), ((0, None),), grain)
    s.go()
    return s.events[0]


class Scheduler:
    """Runs each op in a thread, one at a time, for the number of events each segment allows."""

    def __init__(self, ops, segments, grain):
        self.ops, self.grain = ops, grain
        self.segments = list(segments)
        self.cond = threading.Condition()
        self.events = [0] * len(ops)
        self.left = self.segments[0][1]
        self.done = [False] * len(ops)
        self.result = [None] * len(ops)
        self.progress = 0
        self.switches = 0

    def turn(self):
        return self.segments[0][0] if self.segments else None

    def advance(self):
        self.segments.pop(0)
        while self.segments and self.done[self.segments[0][0]]:
            self.segments.pop(0)
        if self.segments:
            self.left = self.segments[0][1]
        else:
            rest = [i for i, d in enumerate(self.done) if not d]
            if rest:
                self.segments = [(rest[0], None)]
                self.left = None
        self.switches += 1
        self.cond.notify_all()

    def wait(self, i):
        while self.turn() != i:
            before = self.progress
            if not self.cond.wait_for(lambda: self.turn() == i, timeout=3) and before == self.progress:
                # the running thread is blocked by something a waiting thread holds
                self.segments.insert(0, (i, None))
                self.left = None

    def point(self, i):
        with self.cond:
            self.wait(i)
            self.events[i] += 1
            self.progress += 1
            if self.left is not None:
                if self.left <= 0:
                    self.advance()
                    self.wait(i)
                else:
                    self.left -= 1

    def tracer(self, i):
        def local(frame, event, arg):
            if event == "line":
                self.point(i)
            return local

        def enter(frame, event, arg):
            code = frame.f_code
            if not code.co_filename.startswith(HOME) or code.co_name in LOCKED:
                return None
            self.point(i)
            return local if self.grain == "line" else None
        return enter

    def body(self, i):
        with self.cond:
            self.wait(i)
        sys.settrace(self.tracer(i))
        try:
            self.result[i] = guarded(self.ops[i], None)
        finally:
            sys.settrace(None)
            with self.cond:
                self.done[i] = True
                self.progress += 1
                if self.turn() == i:
                    self.advance()
                self.cond.notify_all()

    def go(self):
        sys.stderr = io.StringIO()
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.ops))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(40)
        return self.result, self.events, self.switches


# --- cases -------------------------------------------------------------------------------

TRIPLE_Q = (("A", "hr"), ("B", "plain"), ("C", "objhr"), ("D", "obj"), ("G", "hr"), ("H", "plain"), ("I", "hr"), ("I", "objhr"), ("A", "lint"), ("L", "obj"))
TRIPLE_T = tuple((d, h) for d in DOCS for h in ("hr", "obj")) + (("A", "lint"), ("A", "make"), ("G", "twice"), ("D", "debug"), ("I", "objhr"), ("C", "objhr"))


def tour(step, laps):
    """Every document in every way, some laps, in an order of its own for every step."""
    n = len(OPS)
    step = [i for i in range(1, n) if gcd(i, n) == 1][step - 1]
    return tuple(OPS[i * step % n] for i in range(n * laps))


def cases(tier):
    quick = tier == "quick"
    for op in OPS:
        yield ("hist", (op,))
    for ops in product([o for o in OPS if o[0] in "AGHI" or o[1] in ("hr", "obj", "objhr", "debug")] if quick else OPS, repeat=2):
        yield ("hist", ops)
    for op in OPS:
        yield ("hist", (op,) * (12 if quick else 60))
    for ops in product(TRIPLE_Q if quick else TRIPLE_T, repeat=3):
        yield ("hist", ops)
    for s in range(1, 4 if quick else 25):
        yield ("hist", tour(s, 2 if quick else 4))
    for s in range(1, 4 if quick else 17):
        yield ("seed", s)
    pairs = ((THREADS[0], THREADS[4]), (THREADS[7], THREADS[1])) if quick else tuple(product([THREADS[i] for i in (0, 1, 3, 4, 6)], repeat=2))
    for a, b in pairs:
        for k in range(EVENTS[a, "call"] + 1):
            yield ("thr", a, b, "call", ((0, k), (1, None), (0, None)))
    if not quick:
        for a, b in ((THREADS[0], THREADS[4]), (THREADS[4], THREADS[0]), (THREADS[3], THREADS[1])):
            for k in range(EVENTS[a, "line"] + 1):
                yield ("thr", a, b, "line", ((0, k), (1, None), (0, None)))
        a, b = ("K", "plain"), ("K", "hr")
        for x, y in ((a, a), (a, b), (b, a), (b, b)):
            m, n = forked(lambda: count(x, "call")), forked(lambda: count(y, "call"))
            for k in range(m + 1):
                for j in range(n + 1):
                    yield ("thr", x, y, "call", ((0, k), (1, j), (0, None), (1, None)))


def describe(case):
    if case[0] == "hist":
        return "\n".join(f"--- {how} of\n{DOCS[d]}" for d, how in case[1])
    return repr(case)


def first_difference(a, b):
    a, b = repr(a), repr(b)
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, i - 150):i + 150]}...\nalone:\n...{b[max(0, i - 150):i + 150]}..."


def run(case):
    out = []
    if case[0] == "hist":
        ops = case[1]
        got = forked(lambda: history(ops))
        if got is None:
            return Result([Violation("hang", "no answer", describe(case))], ("none",))
        for i, op in enumerate(ops):
            (res, text), (res0, text0) = got[i], reference(op)
            if res != res0:
                out.append(Violation(f"history-{op[1]}", f"call {i + 1} ({op[1]} of {op[0]}) gives another result than alone", first_difference(res, res0)))
            elif text != text0:
                out.append(Violation("history-log", f"call {i + 1} ({op[1]} of {op[0]}) prints something else than alone", first_difference(text, text0)))
            if op[1] in ("obj", "twice", "objhr"):
                fresh = reference((op[0], "hr" if op[1] == "objhr" else "plain"))[0]
                if op[1] != "twice" and fresh[0] == "page" and res != fresh:
                    out.append(Violation(f"reuse-{op[1]}", f"call {i + 1}: objects used before give another page than rsm.render", first_difference(res, fresh)))
                if op[1] == "twice" and res != fresh:
                    out.append(Violation("reuse-app", "an application run twice gives another page the second time", first_difference(res, fresh)))
            if out:
                break
        return Result(out, tuple(r[0][0] for r in got), execs=len(ops), steps=len(ops), trivial=len(ops) == 1)
    if case[0] == "seed":
        env = dict(os.environ, PYTHONHASHSEED=str(case[1]), PYTHONDONTWRITEBYTECODE="1")
        r, w = os.pipe()
        code = ("import sys, os, pickle; sys.path.insert(0, sys.argv[1]); import p14_state as m\n"
                "res = {op: m.forked(lambda: m.observe(op, m.Objects())) for op in m.OPS}\n"
                "f = os.fdopen(int(sys.argv[2]), 'wb'); f.write(pickle.dumps(res)); f.close()")
        p = subprocess.Popen([sys.executable, "-W", "ignore", "-c", code, os.path.dirname(os.path.abspath(__file__)), str(w)], env=env, pass_fds=(w,),
                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        os.close(w)
        with os.fdopen(r, "rb") as f:
            data = f.read()
        p.wait()
        res = pickle.loads(data)
        for op in OPS:
            if res[op] != ALONE[op]:
                out.append(Violation("hash-seed", f"{op[1]} of {op[0]} depends on the hash seed", first_difference(res[op], ALONE[op])))
                break
        return Result(out, ("seed",), execs=len(OPS), steps=len(OPS))
    _, a, b, grain, segments = case
    got = forked(lambda: Scheduler((a, b), segments, grain).go())
    if got is None:
        return Result([Violation("deadlock", f"no answer with {segments}", repr(case))], ("none",))
    res, events, switches = got
    for i, op in enumerate((a, b)):
        ref = reference(op)[0]
        if res[i] != ref:
            out.append(Violation("threads", f"{op[1]} of {op[0]} gives another result when {('preempted', 'run')[i]} at {segments[0][1]}", first_difference(res[i], ref)))
            break
    return Result(out, ("thr", switches), execs=2, steps=len(segments))
