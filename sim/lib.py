# -*- coding: utf-8 -*-
"""
What the checks share: plans, sessions, verdicts.
"""

import json
import os
import sys
import traceback

import seams
import gcsim
from prng import Rng, seed_of
from world import World, ERRS, SimCrash, SimHang, HarnessError

REPO = seams.REPO


class Violation(Exception):

    def __init__(self, cls, msg):
        Exception.__init__(self, cls, msg)
        self.cls = cls
        self.msg = msg


def violate(cls, msg):
    raise Violation(cls, msg)


class Discard(Exception):
    "this plan makes no sense (only after shrinking)"


def norm(x):
    "a plan as it comes back from its replay file, ASCII text as str"
    return _norm(json.loads(json.dumps(x)))


def _norm(x):
    if isinstance(x, unicode):
        try:
            return x.encode("ascii")
        except UnicodeError:
            return x
    if isinstance(x, list):
        return [_norm(y) for y in x]
    if isinstance(x, dict):
        return dict((_norm(k), _norm(v)) for k, v in x.items())
    return x


def canon(x):
    return json.dumps(x, sort_keys=True)


def brief(x, n=300):
    s = x if isinstance(x, basestring) else canon(x)
    return s if len(s) <= n else s[:n] + "..."


def first_diff(a, b, path=""):
    "where two canonical structures differ"
    if type(a) is not type(b) and not (isinstance(a, basestring) and
                                       isinstance(b, basestring)):
        return "%s: %s != %s" % (path or ".", brief(a, 120), brief(b, 120))
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s: only in %s" % (path, k,
                                              "first" if k in a else "second")
            d = first_diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "%s: length %d != %d (%s / %s)" % (
                path, len(a), len(b), brief(a, 120), brief(b, 120))
        for i in range(len(a)):
            d = first_diff(a[i], b[i], "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if a != b:
        return "%s: %s != %s" % (path or ".", brief(a, 120), brief(b, 120))
    return None


def mkworld(plan):
    "the world of a plan, with nothing left over from an earlier run"
    w = plan.get("world", {})
    m = plan.get("model")
    if isinstance(m, dict) and "pairs" in m and "banks" in m:
        for p in m["pairs"]:
            for b, g in zip(p["b"], p["g"]):
                if b >= len(m["banks"]) or \
                        g not in [x["id"] for x in m["banks"][b]["graphs"]]:
                    raise Discard()     # a minimised plan refers to nothing
    world = World(w.get("seed", 0), bufsize=w.get("buf", 4096))
    gcsim.reset()
    seams.begin_run(world)
    _WORLDS.append(world)
    return world


_WORLDS = []


class Session(object):
    "one simulated process that does several things"

    def __init__(self, world, name="p", cwd="/work", faults=(), budget=200000):
        world.fs.mkdirs(cwd)
        self.world = world
        self.p = world.spawn(name, cwd, faults, budget)
        self.first = True

    def do(self, fn, *args, **kw):
        first, self.first = self.first, False
        return seams.attempt(self.p, lambda: fn(*args, **kw), fresh=first)

    def must(self, what, fn, *args, **kw):
        out = self.do(fn, *args, **kw)
        if isinstance(out.exc, (Violation, Discard)):
            raise out.exc
        if out.kind != "ok":
            violate("failed:" + what, "%s ended with %r\n%s"
                    % (what, out, out.tb or ""))
        return out.value

    def end(self):
        return seams.attempt(self.p, lambda: None, fresh=False, end=True)


def tool(world, name, argv, pname=None, cwd="/work", faults=(), stdout_full=None):
    "run a command line tool as a simulated process; -> (Outcome, Proc)"
    world.fs.mkdirs(cwd)
    p = world.spawn(pname or name, cwd, faults)
    if stdout_full is not None:
        prep_std(p)
        p.stdout.full = stdout_full
    out = seams.run_tool(p, name, argv)
    return out, p


def prep_std(p):
    p.stdin = seams.SimStd(p, "<stdin>", "r")
    p.stdout = seams.SimStd(p, "<stdout>")
    p.stderr = seams.SimStd(p, "<stderr>")
    p.warnings = []


def loud(out, p):
    "the tool let its user know that something went wrong"
    return out.failed or bool(p.stderr.getvalue().strip())


# --------------------------------------------------------------------------
# running one plan
# --------------------------------------------------------------------------

class LineBudget(object):
    "raise SimHang when the code of the current run executes too many lines"

    def __init__(self, n):
        self.n = n

    def __call__(self, frame, event, arg):
        if event == "line":
            self.n -= 1
            if self.n < 0:
                raise SimHang("line budget")
        return self

    def __enter__(self):
        sys.settrace(self)

    def __exit__(self, *exc):
        sys.settrace(None)


def in_repo(tb):
    "does the traceback end in the code under test (or below it)?"
    last = None
    for fn, line, name, text in traceback.extract_tb(tb):
        if fn.startswith(REPO + "/"):
            last = True
        elif "/sim/" in fn and "seams" not in fn and "world" not in fn:
            last = False
    return bool(last)


def execute(check, plan, lines=None):
    """
    Run a plan; -> dict with
      v      None or [class, message]
      err    None or a traceback of the harness
      hash   digest of everything that happened
      ...    what the check reports
    """
    plan = norm(plan)
    del _WORLDS[:]
    rep = {}
    v = err = None
    try:
        if lines:
            with LineBudget(lines):
                rep = check.run(plan) or {}
        else:
            rep = check.run(plan) or {}
    except Violation, e:
        v = [e.cls, e.msg]
    except SimHang, e:
        v = ["hang", "no progress: " + str(e)]
    except Discard, e:
        rep = {"discard": True}
    except HarnessError:
        err = traceback.format_exc()
    except (Exception, KeyboardInterrupt, SimCrash), e:
        if in_repo(sys.exc_info()[2]):
            v = ["exception:" + type(e).__name__, traceback.format_exc()]
        else:
            err = traceback.format_exc()
    finally:
        seams._cur[0] = None
    faults = {}
    probes = {}
    steps = 0
    sim = 0.0
    import hashlib
    h = hashlib.md5()
    for w in _WORLDS:
        for k, n in w.fault_counts.items():
            faults[k] = faults.get(k, 0) + n
        for k, n in w.probes.items():
            probes[k] = probes.get(k, 0) + n
        steps += w.steps
        sim += w.slept
        h.update(w.md5.hexdigest())
    h.update(canon(v[0] if v else None))
    h.update(canon(rep.get("state")))
    res = {"v": v, "err": err, "hash": h.hexdigest(), "faults": faults,
           "probes": probes, "nsteps": steps, "sim": sim,
           "nt": bool(rep.get("nt", True)), "steps": rep.get("steps", {}),
           "discard": bool(rep.get("discard")),
           "sample": rep.get("sample"), "info": rep.get("info")}
    return res


# --------------------------------------------------------------------------
# fault placement
# --------------------------------------------------------------------------

def marks(proc):
    "what `place` needs to know about a fault-free process"
    return {"n": proc.steps, "k": dict(proc.kindsteps)}


def place(rng, steps, kinds=("crash", "err")):
    """
    one fault in a process that made these system calls without faults; half
    of them uniformly over the kinds of calls, or the many reads and stats
    would get nearly all of them
    """
    f = rng.choice(kinds)
    a = rng.below(1 << 16)
    if rng.chance(0.6):
        ks = sorted(k for k in steps["k"] if f != "err" or ERRS[k])
        if ks:
            k = rng.choice(ks)
            return {"k": k, "at": rng.int(1, steps["k"][k]), "f": f, "a": a}
    return {"at": rng.int(1, max(steps["n"], 1)), "f": f, "a": a}


def shorts(rng, p=0.5):
    "reads that return less than asked for, which no reader may notice"
    if not rng.chance(p):
        return []
    return [{"k": "read", "at": n, "f": "short", "a": rng.below(1 << 16)}
            for n in sorted(rng.sample(range(1, 30), rng.int(1, 6)))]


# --------------------------------------------------------------------------
# minimisation
# --------------------------------------------------------------------------

def _get(x, path):
    for k in path:
        x = x[k]
    return x


def _expand(plan, pattern):
    "concrete paths of a pattern like model.pairs.*.align"
    paths = [[]]
    for part in pattern.split("."):
        nxt = []
        for p in paths:
            try:
                node = _get(plan, p)
            except (KeyError, IndexError):
                continue
            if part == "*":
                if isinstance(node, list):
                    nxt.extend(p + [i] for i in range(len(node)))
                elif isinstance(node, dict):
                    nxt.extend(p + [k] for k in sorted(node))
            elif isinstance(node, dict) and part in node:
                nxt.append(p + [part])
        paths = nxt
    return paths


def candidates(plan, patterns, simpler):
    "smaller plans, boldest first"
    for pat in patterns:
        for path in _expand(plan, pat):
            lst = _get(plan, path)
            if not isinstance(lst, list) or not lst:
                continue
            n = len(lst)
            size = n
            while size >= 1:
                for start in range(0, n, size):
                    c = norm(plan)
                    del _get(c, path)[start:start + size]
                    yield c
                size //= 2
    for pat, values in simpler:
        for path in _expand(plan, pat):
            old = _get(plan, path)
            for val in values:
                if canon(val) == canon(old):
                    break
                c = norm(plan)
                _get(c, path[:-1])[path[-1]] = val
                yield c


def shrink(check, plan, cls, deadline, now, lines=None):
    tried = 0
    best = norm(plan)
    patterns = getattr(check, "SHRINK", ("ops", "faults", "model.pairs",
                                         "model.pairs.*.align"))
    simpler = getattr(check, "SIMPLER", ())
    progress = True
    while progress and now() < deadline:
        progress = False
        for c in candidates(best, patterns, simpler):
            if now() > deadline:
                break
            tried += 1
            r = execute(check, c, lines)
            if r["v"] and r["v"][0] == cls:
                best = norm(c)
                progress = True
                break
    return best, tried
