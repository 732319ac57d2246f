# -*- coding: utf-8 -*-
"""
C20 generated cache values: computed when missing, failures not stored
"""
from lib import *
import cachesim as C
import c18

SHRINK = ("sched", "alloc", "pre", "threads", "threads.*")
SIMPLER = (("pick", [0]), ("expiry", [None]), ("default_fail", [False]),
           ("maxsize", [None]))

ARGS = [1, 1.0, True, "1", "a", None, [1], u"caf\xe9", "a', 'b", 0, ""]
NAMES = ["x", "y", "key", "generator", "self", "cache"]


def gen_value(rng, o, depth):
    g = {"v": rng.choice(C.FALSY) if rng.chance(0.2) else rng.below(1000)}
    if rng.chance(0.25):
        g = {"fail": rng.choice("eeks") + str(rng.below(9))}
    if depth < 2 and rng.chance(0.25):
        g["ops"] = [gen_op(rng, o, depth + 1) for _ in range(rng.int(1, 2))]
    return g


def gen_op(rng, o, depth=0):
    k = rng.choice(o["kinds"] if not depth else
                   [x for x in o["kinds"] if x != "tick"] +
                   ["tick"] * o["time"])
    if k == "fwg":
        return [k, rng.below(o["keys"]) if rng.chance(0.97) else -1,
                gen_value(rng, o, depth),
                rng.sample(ARGS, rng.below(3)),
                [[x, rng.choice(ARGS)] for x in
                 sorted(rng.subset(["x", "y"], 0.3))]]
    if k == "cached":
        name = rng.choice(o["funcs"])
        if name == "first":
            args = [[rng.choice(["a", "b", 1, "c"])] +
                    rng.sample(ARGS, rng.below(2)), []]
        else:
            args = rng.choice(o["calls"])
        return [k, name, args, gen_value(rng, o, depth)]
    if k == "tick":
        return [k, rng.choice([1, 5, 6, -3, 2.5])]
    return c18.gen_op(rng, dict(o, kinds=[k]))


def gen(rng, tier):
    n = rng.weighted([(1, 3), (2, 3), (3, 2)])
    kinds = ["fwg", "fwg", "fwg", "cached", "cached", "cached"]
    kinds += rng.sample(["set", "remove", "clear", "fetch", "size", "keys",
                         "collect", "has", "reconf"], rng.below(4))
    time = rng.chance(0.4)
    o = {"kinds": kinds, "keys": rng.choice([1, 1, 2, 4]), "time": time,
         "args": ARGS if rng.chance(0.5) else ARGS[:3],
         "funcs": ["m1.f", "m1.f", "m1.g", "m2.f", "first"]
         if rng.chance(0.5) else ["m1.f"]}
    o["calls"] = [[rng.sample(o["args"], rng.below(3)),
                   [[x, rng.choice(o["args"])] for x in
                    sorted(rng.subset(NAMES, 0.15))]]
                  for _ in range(rng.int(1, 5))]
    if rng.chance(0.4):
        # argument lists that are nearly the same
        a, kw = rng.choice(o["calls"])
        if rng.chance(0.5):
            kw = kw or [[rng.choice(NAMES), 1]]
            o["calls"].append([a, kw])
        o["calls"] += [[a, [[x, 2 if y == 1 else 1] for x, y in kw]],
                       [a + [None], kw], [a[:-1], kw], [a, kw[:-1]],
                       [[str(x) if isinstance(x, int) else x for x in a], kw]]
    if time and n == 1:
        kinds += ["tick"] * 3
    return {"world": {"seed": rng.below(1 << 30)},
            "threads": [[gen_op(rng, o)
                         for _ in range(rng.int(1, 12 // n))]
                        for _ in range(n)],
            "maxsize": rng.choice([None, None, 1, 2, 3]),
            "expiry": 5 if time else None, "pre": [],
            "default_fail": rng.chance(0.3), "end": rng.int(1, 4),
            "sched": [], "pick": rng.below(1 << 16), "alloc": []}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(8 if tier == "quick" else 50):
        p = norm(plan)
        p["pick"] = rng.below(1 << 16)
        if len(p["threads"]) > 1:
            p["sched"] = c18.gen_sched(rng, base["steps"]["n"])
        elif rng.chance(0.6):
            p["maxsize"] = rng.choice([None, 0, 1, 2])
            p["expiry"] = rng.choice([None, 1, 5])
            p["default_fail"] = rng.chance(0.3)
            gs = [x for x in p["threads"][0] if x[0] in ("fwg", "cached")]
            if gs:
                g = C.calls_of(rng.choice(gs))
                if "fail" in g:
                    del g["fail"]
                    g["v"] = rng.choice(C.FALSY)
                else:
                    g["fail"] = rng.choice("eks") + "z"
        if '"ops"' not in canon(p) and rng.chance(
                0.15 if len(p["threads"]) > 1 else 0.6):
            t = rng.below(len(p["threads"]))
            p["alloc"] = [[t, rng.int(1, max(base["steps"]["allocs"][t], 1))]]
        out.append(p)
    return out


def run(plan):
    return C.play(plan)
