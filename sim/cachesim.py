# -*- coding: utf-8 -*-
"""
Histories of operations on the shared cache, by several threads, and the
reference model that explains them.

state of the model: (entries, maxsize, expiry, now), entries being a tuple of
(key as string, repr of the key, value, time of insertion), the least recently
used first.
"""
import json
from lib import *
import seams
import threads as TH

KEYS = ["a", "b", "c", "d", 1, "1", 2.5, "long key"]
FALSY = [None, 0, "", False, [], 0.0]


class BadKey(object):

    def __str__(self):
        raise ValueError("no such key")


class GenError(Exception):
    pass


class GenKeyError(GenError, KeyError):
    pass


class GenStop(BaseException):
    pass


ERRORS = {"e": GenError, "k": GenKeyError, "s": GenStop}


def key_of(k):
    return BadKey() if k < 0 else KEYS[k]


# --------------------------------------------------------------------------
# the model: apply(op, state) -> [(result, state)...]
# --------------------------------------------------------------------------

def _find(st, ks):
    for e in st[0]:
        if e[0] == ks:
            return e
    return None


def _drop(st, ks):
    return (tuple(e for e in st[0] if e[0] != ks),) + st[1:]


def _expired(st, e):
    return bool(st[2]) and e[3] + st[2] < st[3]


def _shrunk(st, nb=0):
    es = st[0]
    if st[1]:
        while len(es) + nb > st[1] and es:
            es = es[1:]
    return (es,) + st[1:]


def _insert(st, k, v):
    ks = str(k)
    st = _shrunk(_drop(st, ks), 1)
    return (st[0] + ((ks, repr(k), canon(v), st[3]),),) + st[1:]


def _fetch(st, k):
    "-> (entry or None, state)"
    ks = str(k)
    e = _find(st, ks)
    if e is None:
        return None, st
    if _expired(st, e):
        return None, _drop(st, ks)
    st = _drop(st, ks)
    return e, (st[0] + (e,),) + st[1:]


def ok(v):
    return canon(["ok", v])


def exc(name):
    return canon(["exc", name])


def calls_of(op):
    return op[2] if op[0] == "fwg" else op[3]


def apply(op, st, default_fail=False):
    "-> list of (result, state)"
    k = op[0]
    if k in ("insert", "set", "node", "one", "fetch", "get", "fwg", "remove",
             "del", "has", "in") and op[1] < 0:
        return [(exc("ValueError"), st)]
    if k in ("insert", "set", "node"):
        return [(ok(None), _insert(st, KEYS[op[1]], op[2]))]
    if k == "one":
        return [(ok(None), _insert(st, KEYS[op[1]], KEYS[op[1]]))]
    if k in ("fetch", "get"):
        e, st = _fetch(st, KEYS[op[1]])
        fail = op[2] if k == "fetch" else None
        om = op[3] if k == "fetch" else None
        if e is not None:
            return [(canon(["ok", json.loads(e[2])]), st)]
        if default_fail if fail is None else fail:
            return [(exc("KeyError"), st)]
        return [(ok(om), st)]
    if k in ("fwg", "cached"):
        key, gen = (KEYS[op[1]], op[2]) if k == "fwg" else \
            (ckey(op), op[3])
        e, st = _fetch(st, key)
        if e is not None:
            return [(canon(["gen", json.loads(e[2]), []]), st)]
        # the generator is called once
        sub = []
        for o in gen.get("ops", []):
            (r, st), = apply(o, st, default_fail)
            sub.append(r)
        if "fail" in gen:
            return [(canon(["genexc", gen["fail"], sub]), st)]
        return [(canon(["gen", gen["v"], [sub]]), _insert(st, key, gen["v"]))]
    if k in ("remove", "del"):
        return [(ok(None), _drop(st, str(KEYS[op[1]])))]
    if k in ("has", "in"):
        return [(ok(_find(st, str(KEYS[op[1]])) is not None), st)]
    if k == "keys":
        return [(ok(sorted(e[1] for e in st[0])), st)]
    if k in ("size", "len"):
        return [(ok(len(st[0])), st)]
    if k == "clear":
        return [(ok(None), ((),) + st[1:])]
    if k == "collect":
        return [(ok(None), (tuple(e for e in st[0] if not _expired(st, e)),)
                 + st[1:])]
    if k == "reconf":
        return [(ok(None), _shrunk((st[0], op[1], op[2], st[3])))]
    if k == "tick":
        return [(ok(None), st[:3] + (st[3] + op[1],))]
    raise HarnessError(k)


class CKey(object):
    "the key of a call of a cached function: whatever, but distinct"

    def __init__(self, op):
        self.s = "call " + canon(op[1:3])

    def __str__(self):
        return self.s

    def __repr__(self):
        return "call"


def ckey(op):
    if op[1] == "first":
        return op[2][0][0]
    return CKey(op)


def failed(op, st):
    "what an operation may have done when it ran out of memory"
    out = [st]
    if op[0] in ("insert", "set", "node", "one", "fwg", "fetch", "get") and \
            op[1] >= 0:
        ks = str(KEYS[op[1]])
        out.append(_drop(st, ks))
        out.append(_shrunk(_drop(st, ks), 1))
        out += [s for r, s in apply(op, st)]
    elif op[0] == "cached":
        out += [s for r, s in apply(op, st)]
        e, s = _fetch(st, ckey(op))
        out.append(s)
        out.append(_shrunk(s, 1))
    return out


# --------------------------------------------------------------------------
# is there an order of the operations that explains the results?
# --------------------------------------------------------------------------

def linearize(hist, st, default_fail=False, limit=200000):
    """
    hist: [(thread, invoked, returned, op, result)...]; -> None, or how far
    an explanation gets and what it cannot explain
    """
    n = len(hist)
    full = (1 << n) - 1
    seen = set()
    best = [0, None]
    stack = [(0, st)]
    count = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return None
        if (done, st) in seen:
            continue
        seen.add((done, st))
        count += 1
        if count > limit:
            return None     # undecided: not a violation
        left = [i for i in range(n) if not done >> i & 1]
        first = min(hist[i][2] for i in left)
        told = []
        for i in left:
            if hist[i][1] > first:
                continue
            op, res = hist[i][3], hist[i][4]
            if res == MEMORY:
                for s in failed(op, st):
                    stack.append((done | 1 << i, s))
                continue
            for r, s in apply(op, st, default_fail):
                if r == res:
                    stack.append((done | 1 << i, s))
                else:
                    told.append("thread %s %s -> %s instead of %s"
                                % (hist[i][0], canon(op), res, r))
        if bin(done).count("1") >= best[0] and told:
            best = [bin(done).count("1"), "; ".join(told) + " in " +
                    repr(st)]
    return "%d of %d operations explained; then %s" % (best[0], n, best[1])


MEMORY = canon(["exc", "MemoryError"])


# --------------------------------------------------------------------------
# the real thing
# --------------------------------------------------------------------------

class Real(object):

    def __init__(self, w, plan):
        from daeso.thirdparty.GenericCache import GenericCache, CacheNode
        from daeso.thirdparty.GenericCache.decorators import cached
        self.w = w
        kw = {}
        if plan["maxsize"] is not None:
            kw["maxsize"] = plan["maxsize"]
        if plan["expiry"] is not None:
            kw["expiry"] = plan["expiry"]
        if plan["default_fail"]:
            kw["default_fail"] = True
        self.cache = GenericCache(**kw)
        self.node = CacheNode
        self.gens = []              # the generators under way, per thread
        self.funcs = {}
        for name, module in (("f", "m1"), ("g", "m1"), ("f", "m2")):
            def body(*args, **kwargs):
                op, trace = self.under[-1]
                if list(args) != op[2][0] or kwargs != dict(
                        (str(a), b) for a, b in op[2][1]):
                    violate("arguments", "%r %r" % (args, kwargs))
                return self.gen(op[3], trace)
            body.__name__ = name
            body.__module__ = module
            self.funcs[module + "." + name] = cached(self.cache)(body)
        # a marshaller of one's own: only the first argument matters
        self.funcs["first"] = cached(
            self.cache, lambda func, *args, **kwargs: args[0])(body)
        self._under = {}

    @property
    def under(self):
        s = TH.active()
        me = s.cur if s is not None else None
        return self._under.setdefault(me, [])

    def gen(self, gen, trace):
        "the body of a generator"
        sub = []
        trace.append(sub)
        for o in gen.get("ops", []):
            TH.point()
            sub.append(self.do(o))
        TH.point()
        if "fail" in gen:
            raise ERRORS[gen["fail"][0]](gen["fail"])
        return gen["v"]

    def do(self, op):
        trace = []
        try:
            v = self._do(op, trace)
        except (GenError, GenStop), e:
            if len(trace) != 1:
                return canon(["genexc", e.args[0], trace])
            return canon(["genexc", e.args[0], trace[0]])
        except (Exception, ), e:
            return exc(type(e).__name__)
        if op[0] in ("fwg", "cached"):
            return canon(["gen", v, trace])
        return ok(v)

    def _do(self, op, trace):
        c = self.cache
        k = op[0]
        if k == "insert":
            return c.insert(key_of(op[1]), op[2])
        if k == "set":
            c[key_of(op[1])] = op[2]
        elif k == "node":
            return c.insert(self.node(key_of(op[1]), op[2]))
        elif k == "one":
            return c.insert(key_of(op[1]))
        elif k == "fetch":
            kw = {}
            if op[2] is not None:
                kw["fail"] = op[2]
            if op[3] is not None:
                kw["onmissing"] = op[3]
            return c.fetch(key_of(op[1]), **kw)
        elif k == "get":
            return c[key_of(op[1])]
        elif k == "fwg":
            def generator(*args, **kwargs):
                if list(args) != op[3] or kwargs != dict(op[4]):
                    violate("arguments", "%r %r" % (args, kwargs))
                return self.gen(op[2], trace)
            return c.fetch_with_generator(key_of(op[1]), generator, *op[3],
                                          **dict(op[4]))
        elif k == "cached":
            u = self.under
            u.append((op, trace))
            try:
                return self.funcs[op[1]](*op[2][0], **dict(
                    (str(a), b) for a, b in op[2][1]))
            finally:
                u.pop()
        elif k == "remove":
            return c.remove(key_of(op[1]))
        elif k == "del":
            del c[key_of(op[1])]
        elif k == "has":
            return c.has_key(key_of(op[1]))
        elif k == "in":
            return key_of(op[1]) in c
        elif k == "keys":
            return sorted(repr(x) if x in KEYS else "call"
                          for x in c.keys())
        elif k == "size":
            return c.size()
        elif k == "len":
            return len(c)
        elif k == "clear":
            return c.clear()
        elif k == "collect":
            return c.collect()
        elif k == "reconf":
            return c.reconfigure(maxsize=op[1], expiry=op[2])
        elif k == "tick":
            self.w.now += op[1]
            self.w.log("tick", op[1])


def epilogue(plan):
    "operations that show what is left, in order of use"
    out = [["size"], ["keys"]]
    n = plan["end"]
    out += [["reconf", n, None], ["keys"]]
    for i in range(n):
        out += [["set", i % 4, "e%d" % i], ["keys"]]
    out += [["fetch", i, None, "none"] for i in range(4)]
    out += [["clear"], ["len"], ["insert", 0, "x"], ["get", 0]]
    return out


def play(plan):
    "run the threads of a plan; -> report, or a violation"
    w = mkworld(plan)
    seams.points[0] = True
    s = Session(w, "p", "/work")
    now0 = w.now
    hist = []
    clock = [0]

    def stamp():
        clock[0] += 1
        return clock[0]
    real = s.must("create", Real, w, plan)
    sched = TH.Sched(plan["sched"], Rng("pick", plan["pick"])
                     if plan["pick"] else None, alloc=plan.get("alloc", []))

    def body(t, ops):
        def go():
            for op in ops:
                TH.point()
                i = stamp()
                r = real.do(op)
                hist.append((t, i, stamp(), op, r))
                w.log("op", t, canon(op), r)
        return go
    if plan.get("pre"):
        first = TH.Sched()
        first.spawn(body("pre", plan["pre"]))

        def before():
            first.run()
            return first.aborting
        out = s.do(before)
        if out.kind != "ok" or out.value:
            violate(out.value or "failed", "%r %s" % (out, out.tb))
    for t, ops in enumerate(plan["threads"]):
        sched.spawn(body(t, ops))

    def all():
        sched.run()
        return sched.aborting
    out = s.do(all)
    w.log("switches", repr(sched.trail))
    w.steps += sched.points
    for i in range(sched.failed):
        w.fired("alloc", s.p, "")
    w.fault_counts["preempt"] = w.fault_counts.get("preempt", 0) + \
        sched.switches
    if isinstance(out.exc, (Violation, Discard)):
        raise out.exc
    if out.kind != "ok":
        violate("failed", "%r %s" % (out, out.tb))
    if out.value:
        violate(out.value, "the threads end in a %s: %s" % (
            out.value, [(t.n, t.state) for t in sched.threads]))

    st = ((), plan["maxsize"], plan["expiry"], now0)
    # what is left, without a schedule
    sched2 = TH.Sched()
    sched2.spawn(body("end", epilogue(plan)))

    def rest():
        sched2.run()
        return sched2.aborting
    out = s.do(rest)
    if out.kind != "ok" or out.value:
        violate(out.value or "failed", "afterwards: %r %s" % (out, out.tb))
    bad = linearize(hist, st, plan["default_fail"])
    if bad:
        violate("order", "no order explains the results: %s\n%s" % (
            bad, "\n".join("%s [%d,%d] %s -> %s" % (
                h[0], h[1], h[2], canon(h[3]), h[4]) for h in hist)))
    s.end()
    return {"nt": True, "steps": {"n": sched.points, "allocs":
                                  [t.allocs for t in sched.threads]},
            "state": [canon(h[3:]) for h in hist]}
