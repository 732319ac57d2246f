# -*- coding: utf-8 -*-
"""
C18 the shared cache is consistent under concurrent use
"""
from lib import *
import cachesim as C

SHRINK = ("sched", "alloc", "pre", "threads", "threads.*")
SIMPLER = (("pick", [0]), ("expiry", [None]), ("default_fail", [False]))


def gen_op(rng, o):
    k = rng.choice(o["kinds"])
    key = rng.below(o["keys"]) if rng.chance(0.97) else -1
    if k in ("insert", "set", "node"):
        return [k, key, rng.below(1000) if rng.chance(0.9)
                else rng.choice(C.FALSY)]
    if k == "fetch":
        return [k, key, rng.choice([None, None, True, False]),
                rng.choice([None, None, "missing"])]
    if k in ("one", "get", "remove", "del", "has", "in"):
        return [k, key]
    if k == "fwg":
        g = {"v": rng.below(1000)}
        if rng.chance(0.15):
            g = {"fail": "e%d" % rng.below(9)}
        return [k, key, g, [], []]
    if k == "reconf":
        return [k, rng.choice([None, 0, 1, 2, 3]),
                rng.choice([None, 5]) if o["time"] else None]
    if k == "tick":
        return [k, rng.choice([1, 2.5, 5, 6, -3])]
    return [k]


KINDS = ["insert", "set", "set", "node", "one", "fetch", "fetch", "get",
         "fwg", "fwg", "remove", "del", "has", "in", "keys", "size", "len", "clear",
         "collect"]


def gen(rng, tier):
    kinds = list(KINDS)
    time = rng.chance(0.25)
    if time:
        # operations that read the clock at most once
        kinds = [k for k in kinds if k not in ("fwg", "collect")]
        kinds += ["tick", "tick"]
    if rng.chance(0.3):
        kinds += ["reconf"]
    if rng.chance(0.3):
        kinds = rng.sample(kinds, 3) + ["set", "fetch"]
    pre = []
    if not time and rng.chance(0.4):
        # some entries are about to expire when the threads start
        o = {"kinds": ["set", "set", "insert", "tick", "get"], "keys": 4,
             "time": False}
        pre = [gen_op(rng, o) for _ in range(rng.int(2, 8))]
        kinds += ["collect", "collect", "set"]
    o = {"kinds": kinds, "keys": rng.choice([1, 2, 3, 6, len(C.KEYS)]),
         "time": time}
    n = rng.int(2, 4)
    return {"world": {"seed": rng.below(1 << 30)},
            "threads": [[gen_op(rng, o)
                         for _ in range(rng.int(1, 7 if n < 4 else 4))]
                        for _ in range(n)],
            "maxsize": rng.choice([None, None, 0, 1, 1, 2, 2, 3, 4]),
            "expiry": 5 if time or pre else None, "pre": pre,
            "default_fail": rng.chance(0.2), "end": rng.int(1, 4),
            "sched": [], "pick": rng.below(1 << 16), "alloc": []}


def gen_sched(rng, n):
    "a few switches at random points, or many"
    k = rng.choice([1, 1, 2, 2, 3, 5, 10, 40])
    return sorted([rng.int(1, max(n, 1)), rng.below(3)] for _ in range(k))


def faults(rng, plan, base, tier):
    out = []
    for _ in range(10 if tier == "quick" else 60):
        p = norm(plan)
        p["pick"] = rng.below(1 << 16)
        p["sched"] = gen_sched(rng, base["steps"]["n"])
        if rng.chance(0.15):
            t = rng.below(len(p["threads"]))
            p["alloc"] = [[t, rng.int(1, max(base["steps"]["allocs"][t], 1))]]
        out.append(p)
    return out


def run(plan):
    return C.play(plan)
