"""Exhaustive runner.

A check module defines

    PROPERTY   "P01"
    TECHNIQUE, RULE, ASSUMPTIONS (texts for the evidence file)
    cases(tier)      deterministic generator of every case within the tier's bounds;
                     a case is a plain Python literal
    run(case)        -> Result of executing the real code on the case

The runner deals the cases out to worker processes, so that the whole space is executed,
and reports violations.  A worker that hangs or dies is a violation of its current case.
"""
import ast
import hashlib
import importlib
import json
import mmap
import os
import resource
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CASE_LIMIT = 60          # seconds before one case counts as hung
BUDGET = {"quick": 780, "thorough": 3000}    # seconds, after which the rest is left out and the run not called exhaustive
MAX_REPORT = 5           # violations printed
MAX_KEEP = 40            # violations a worker collects before it stops
NPROC = min(8, os.cpu_count() or 1)


class Violation(Exception):
    """key names the failing behaviour stably; what says it for a person."""

    def __init__(self, key, what, detail=""):
        super().__init__(what)
        self.key, self.what, self.detail = key, what, detail


class Result:
    """violations: list of Violation; outcome: hashable summary of what was observed;
    execs: executions of the real code; steps: transitions of the model taken;
    trivial: nothing interesting could have happened."""

    __slots__ = ("violations", "outcome", "execs", "steps", "trivial")

    def __init__(self, violations=(), outcome=None, execs=1, steps=1, trivial=False):
        self.violations = list(violations)
        self.outcome = outcome
        self.execs = execs
        self.steps = steps
        self.trivial = trivial


class Hang(BaseException):
    pass


def _alarm(*_):
    raise Hang()


def h64(x):
    return hashlib.blake2b(repr(x).encode("utf-8", "surrogatepass"), digest_size=8).digest()


def run_case(mod, case, limit=CASE_LIMIT):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return mod.run(case)
    except Hang:
        return Result([Violation("hang", f"no answer within {limit} s")])
    except Violation as v:
        return Result([v])
    except Exception as e:  # noqa: BLE001  the code under test raised where it may not
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if "/rsm/" in f.filename]
        loc = f"{os.path.basename(where[-1].filename)}:{where[-1].name}" if where else ""
        if not where:
            raise
        return Result([Violation(f"crash:{type(e).__name__}:{loc}",
                                 f"{type(e).__name__}: {e} in {loc}", traceback.format_exc())])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, tier, w, n, cur, out, stopflag):
    deadline = time.time() + BUDGET[tier]
    seen_c, seen_o = set(), set()
    stats = dict(cases=0, execs=0, steps=0, trivial=0)
    viol = []
    err = None
    try:
        for i, case in enumerate(mod.cases(tier)):
            if i % n != w:
                continue
            struct.pack_into("q", cur, 8 * w, i)
            if stopflag[0]:
                break
            if time.time() > deadline:
                stopflag[0] = 2
                break
            r = run_case(mod, case, getattr(mod, "LIMIT", CASE_LIMIT))
            stats["cases"] += 1
            stats["execs"] += r.execs
            stats["steps"] += r.steps
            stats["trivial"] += bool(r.trivial)
            seen_c.add(h64(case))
            seen_o.add(h64(r.outcome))
            for v in r.violations:
                viol.append((i, repr(case), v.key, v.what, v.detail))
            if len(viol) + 20 * sum(v[2] == "hang" for v in viol) >= MAX_KEEP and not KNOWN_ONLY(mod, viol):
                stopflag[0] = 1
                break
        struct.pack_into("q", cur, 8 * w, -1)
    except BaseException as e:  # noqa: BLE001
        err = "".join(traceback.format_exception(e))
    with open(out, "wb") as f:
        import pickle
        pickle.dump((stats, seen_c, seen_o, viol, err), f)


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        return {e["key"]: e for e in json.load(f)["findings"]
                if e["property"] == prop and e["status"] == "known"}


def KNOWN_ONLY(mod, viol):
    known = load_known(mod.PROPERTY)
    return all(v[2] in known for v in viol)


def write_replay(mod, v):
    i, case, key, what, detail = v
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    name = f"{mod.PROPERTY}-{hashlib.sha1((key + case).encode()).hexdigest()[:10]}.json"
    path = os.path.join(d, name)
    doc = dict(property=mod.PROPERTY, module=mod.__name__, case=case, key=key, what=what,
               detail=detail, replay=f"cd /verif && ./check --replay {os.path.join('evidence', 'replay', name)}")
    try:
        doc["shown"] = mod.describe(ast.literal_eval(case))
    except Exception:  # noqa: BLE001  a description is a convenience
        pass
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
    return path


def main(mod, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    getattr(mod, "prepare", lambda t: None)(tier)
    n = NPROC
    tmp = tempfile.mkdtemp(prefix=f"rsmmc-{mod.PROPERTY}-")
    cur = mmap.mmap(-1, 8 * n + 8)
    stopflag = mmap.mmap(-1, 1)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(n):
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                os.chdir(tmp)
                devnull = os.open(os.devnull, os.O_RDWR)
                os.dup2(devnull, 0)
                os.dup2(devnull, 1)
                os.dup2(devnull, 2)
                _worker(mod, tier, w, n, cur, os.path.join(tmp, f"{w}.pkl"), stopflag)
                code = 0
            finally:
                os._exit(code)
        pids[pid] = w
    deaths = []
    while pids:
        pid, status = os.wait()
        if pid not in pids:
            continue
        w = pids.pop(pid)
        if status != 0:
            deaths.append((w, status))
    import pickle
    stats = dict(cases=0, execs=0, steps=0, trivial=0)
    seen_c, seen_o, viol, errs = set(), set(), [], []
    for w in range(n):
        f = os.path.join(tmp, f"{w}.pkl")
        if not os.path.exists(f):
            continue
        with open(f, "rb") as fh:
            s, c, o, v, err = pickle.load(fh)
        for k in stats:
            stats[k] += s[k]
        seen_c |= c
        seen_o |= o
        viol += v
        if err:
            errs.append(err)
    for w, status in deaths:
        i = struct.unpack_from("q", cur, 8 * w)[0]
        case = next((c for j, c in enumerate(mod.cases(tier)) if j == i), None)
        viol.append((i, repr(case), "died", f"the process died (status {status}) on this case", ""))
    shutil.rmtree(tmp, ignore_errors=True)
    if errs:
        print(errs[0], file=sys.stderr)
        print(f"check error: harness of {mod.PROPERTY} failed", file=sys.stderr)
        if not viol:
            return 2
    viol.sort(key=lambda v: (len(v[1]), v[0]))
    known = load_known(mod.PROPERTY)
    hit, fresh = {}, {}
    for v in viol:
        (hit if v[2] in known else fresh).setdefault(v[2], []).append(v)
    stopped = bool(stopflag[0])
    if stopflag[0] == 2:
        print(f"{mod.PROPERTY}: the time budget of {BUDGET[tier]} s ended the exploration before its bound")
    extra = getattr(mod, "evidence", lambda: {})()
    level = getattr(mod, "LEVEL", "model_checking")
    samples = []
    for i, c in enumerate(mod.cases(tier)):
        if i in (0, 1, 7, 40, 300, 2000):
            try:
                samples.append(str(mod.describe(c))[:600])
            except Exception:  # noqa: BLE001
                samples.append(repr(c)[:600])
        if i > 2000:
            break
    cov = dict(samples=samples, exhaustive=not stopped and not errs and not deaths,
               rule=mod.RULE, outcomes=len(seen_o))
    if level == "model_checking":
        cov.update(states=len(seen_c), transitions=stats["steps"],
                   traces_validated_against_impl=stats["execs"])
    else:
        cov.update(evaluations=stats["execs"], distinct_nontrivial=len(seen_c) - stats["trivial"])
    cov.update(extra)
    ev = dict(property=mod.PROPERTY, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
              violations=sum(len(x) for x in fresh.values()))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{mod.PROPERTY}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, vs in hit.items():
        print(f"KNOWN-FINDING: property={mod.PROPERTY} {known[k]['what']} ({len(vs)} cases)")
    for k, vs in list(fresh.items())[:MAX_REPORT]:
        path = write_replay(mod, vs[0])
        print(f"VIOLATION property={mod.PROPERTY} replay={path}")
        print(f"  {k}: {vs[0][3]} ({len(vs)} cases)")
    print(f"{mod.PROPERTY} {tier}: {len(seen_c)} cases, {stats['execs']} executions, "
          f"{stats['steps']} transitions, {len(seen_o)} outcomes, {ev['wall_s']} s")
    return 1 if fresh else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = importlib.import_module(d["module"])
    getattr(mod, "prepare", lambda t: None)("quick")
    case = ast.literal_eval(d["case"])
    try:
        print(mod.describe(case))
    except Exception:  # noqa: BLE001
        print(repr(case))
    r = run_case(mod, case, 600)
    for v in r.violations:
        print(f"{v.key}: {v.what}\n{v.detail}")
    print("reproduced" if r.violations else "not reproduced")
    return 1 if r.violations else 0
