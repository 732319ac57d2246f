# -*- coding: utf-8 -*-
"""
C19 cached values expire on time, whatever the clock does
"""
from lib import *
import cachesim as C
import c18

SHRINK = ("sched", "alloc", "pre", "threads", "threads.*")
SIMPLER = (("pick", [0]), ("expiry", [None, 5]), ("default_fail", [False]),
           ("maxsize", [None]))

EXPIRY = [None, 0, 1, 5, 5, 5, 2.5, 3600]
TICKS = [0.5, 1, 2.5, 4.5, 5, 5, 5.5, 6, 3599.5, 3600.5]


def gen_op(rng, o):
    k = rng.choice(o["kinds"])
    if k == "tick":
        return [k, rng.choice(o["ticks"])]
    if k == "reconf":
        return [k, rng.choice([None, 0, 1, 2, 3]), rng.choice(EXPIRY)]
    if k == "fwg" and o["nest"] and rng.chance(0.4):
        return [k, rng.below(o["keys"]),
                {"ops": [["tick", rng.choice(o["ticks"])]],
                 "v": rng.below(1000)}, [], []]
    o = dict(o, kinds=[k])
    return c18.gen_op(rng, o)


def gen(rng, tier):
    kinds = ["set", "set", "insert", "node", "fetch", "fetch", "get", "tick",
             "tick", "tick", "collect", "size", "keys", "has", "remove", "fwg"]
    if rng.chance(0.5):
        kinds += ["reconf"]
    if rng.chance(0.3):
        kinds = ["set", "fetch", "tick"] + rng.sample(kinds, 2)
    n = rng.weighted([(1, 8), (2, 2)])
    o = {"kinds": kinds, "keys": rng.choice([1, 2, 4]), "time": True,
         "nest": True, "ticks": rng.choice([TICKS, [1, 4, 5], [2.5, 5, 0.5]])}
    if n > 1:
        o["kinds"] = [k for k in kinds if k not in ("fwg", "collect")]
    return {"world": {"seed": rng.below(1 << 30)},
            "threads": [[gen_op(rng, o) for _ in range(rng.int(3, 24 // n))]
                        for _ in range(n)],
            "maxsize": rng.choice([None, None, None, 1, 2, 3]),
            "expiry": rng.choice(EXPIRY), "pre": [],
            "default_fail": rng.chance(0.2), "end": rng.int(1, 4),
            "sched": [], "pick": rng.below(1 << 16), "alloc": []}


def faults(rng, plan, base, tier):
    "jumps of the clock"
    out = []
    for _ in range(6 if tier == "quick" else 40):
        p = norm(plan)
        for _ in range(rng.int(1, 3)):
            t = rng.choice(p["threads"])
            t.insert(rng.below(len(t) + 1), ["tick", rng.choice(
                [-1, -5, -5.5, -1e4, -9e8, 1e4, 1e8, 5.5])])
        if len(p["threads"]) > 1:
            p["sched"] = c18.gen_sched(rng, base["steps"]["n"])
        out.append(p)
    return out


def run(plan):
    return C.play(plan)
