# -*- coding: utf-8 -*-
"""
C14 segment statistics survive crashes and reruns
"""
import copy
import posixpath
from lib import *
import model as M
import c12

SHRINK = ("ops", "faults", "model.pairs", "model.pairs.*.align", "places")
SIMPLER = (("world.buf", [4096]), ("model.meta", [None]))

ANNOT = ["ma", "aa", "na"]
SUBSEG = ["s1", "deep/er", "s 3"]
NAMES = ["c1.pgc", "c2.pgc", "x y.pgc"]


def gen(rng, tier):
    while True:
        m = M.gen_model(rng, maxbanks=2, maxgraphs=3, minpairs=1, maxpairs=4,
                        maxnodes=3, rels=c12.RELS, dirs=["/seg/gb", "/data"])
        if m["pairs"]:
            break
    for p in m["pairs"]:
        g = [M.graph_of(m, p, k)["root"] for k in (0, 1)]
        if None not in g and rng.chance(0.7):
            p["align"] = [x for x in p["align"]
                          if x[0] != g[0] and x[1] != g[1]]
            p["align"] = sorted(p["align"] +
                                [[g[0], g[1], rng.choice(c12.RELS)]])
    n = len(m["pairs"])
    annots = rng.sample(ANNOT, rng.int(1, 2))
    subs = rng.sample(SUBSEG, rng.int(1, 2))
    places = []
    for a in annots:
        for s in subs:
            for nm in rng.subset(NAMES, 0.45):
                places.append([a, s, nm, [rng.below(n) for _ in
                                          range(rng.int(0, 3))]])
    ops = []
    for _ in range(rng.int(2, 5)):
        k = rng.weighted([("run", 6), ("add", 2), ("del", 2), ("junk", 2),
                          ("damage", 1), ("repair", 1)])
        if k == "run":
            t = rng.choice([[], ["all"], [rng.choice(annots)],
                            [rng.choice(subs)],
                            [rng.choice(annots) + "." + rng.choice(subs)],
                            ["nothing"]])
            ops.append(["run", t])
        elif k == "add":
            ops.append(["add", rng.choice(annots), rng.choice(subs),
                        rng.choice(NAMES), [rng.below(n) for _ in
                                            range(rng.int(1, 3))]])
        else:
            ops.append([k, rng.below(1 << 16), rng.below(1 << 16)])
    ops.append(["repair", 0, 0])
    ops.append(["run", ["all"]])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([64, 700, 8192])},
            "model": m, "annots": annots, "subs": subs, "places": places,
            "ops": ops, "cwd": rng.choice(["/work", "/seg", "/"]),
            "rel": rng.chance(0.4), "slash": rng.chance(0.3),
            "verbose": rng.chance(0.5), "faults": []}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(4 if tier == "quick" else 20):
        p = norm(plan)
        fs = []
        for _ in range(rng.weighted([(1, 3), (2, 1)])):
            who = rng.choice(sorted(base["steps"]))
            k = rng.weighted([("crash", 5), ("err", 5), ("short", 1),
                              ("intr", 2)])
            f = place(rng, base["steps"][who], (k,))
            if f["a"] % 4 == 2:
                f["a"] += 1     # no ENOENT: a table need not exist
            fs.append([who, f])
        p["faults"] = fs
        if rng.chance(0.15):
            p["quota"] = [rng.choice(sorted(base["steps"])),
                          rng.below(4000)]
            p["faults"] = []
        out.append(p)
    return out


class Bad(object):
    "a table that is not complete"


def parse(text, kind):
    "-> [rows, overall] of a table file, or Bad"
    t = c12.read_tables(text)
    cols = c12.PCOLS if kind == "pgc" else c12.GCOLS
    if t is None or len(t) != 1 or t[0][0] != cols:
        return Bad
    if "\n1   " not in text:
        return Bad          # the legenda ends it
    last = cols[-1]
    if last not in text.rsplit("\n%d" % len(cols), 1)[-1]:
        return Bad
    return t[0][1:]


def same(table, rows, kind, order=True):
    cols = c12.PCOLS if kind == "pgc" else c12.GCOLS
    try:
        c12.compare(kind, cols, table[0], table[1], rows,
                    c12.total(rows, cols))
    except Violation, e:
        return e.msg
    if order and [r[cols[0]] for r in table[0]] != [r[cols[0]] for r in rows]:
        if kind == "pgc":
            return "another order of rows"
    return None


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    cwd = plan["cwd"]
    for d in ("/work", "/seg/gb", "/data", "/seg/pgc"):
        fs.mkdirs(d)
    M.put_banks(fs, m)
    dirs = {}               # (annot, subseg) -> {name: pairs}
    damaged = {}

    def put(a, s, nm, idx):
        d = "/seg/pgc/%s/%s" % (a, s)
        fs.mkdirs(d)
        if [i for i in idx if i >= len(m["pairs"])]:
            raise Discard()
        pairs = [m["pairs"][i] for i in idx]
        fs.put(d + "/" + nm, M.corpus_xml(dict(m, pairs=pairs), d + "/" + nm))
        dirs.setdefault((a, s), {})[nm] = pairs
        damaged.pop(d + "/" + nm, None)
    for a, s, nm, idx in plan["places"]:
        put(a, s, nm, idx)
    tables = {}             # (annot or None, subseg or None, kind) -> rows
    keys = [(a, s) for a in plan["annots"] for s in plan["subs"]]
    seg = posixpath.relpath("/seg", cwd) if plan["rel"] else "/seg"
    if seg == ".":
        seg = "../seg"
    if plan["slash"]:
        seg += "/"
    pre = cwd.rstrip("/") + "/"

    def fname(a, s, kind):
        return pre + ".".join(x.replace("/", ".") for x in
                              ["stats", "seg", a, s, kind] if x)

    def compute(a, s):
        o = {"e": False, "f": False, "p": False, "r": a == "na", "u": False}
        prow, grow = [], []
        for nm in sorted(dirs.get((a, s), {})):
            c, bs = c12.recount(m, dirs[a, s][nm], o)
            c["CORPUS"] = nm
            prow.append(c12.derive(c))
            grow.extend(c12.derive(x) for x in bs)
        return {"pgc": prow or None, "gb": grow or None}
    steps = {}
    nruns = 0
    for n, op in enumerate(plan["ops"]):
        k = op[0]
        if k == "add":
            put(*op[1:])
        elif k == "del":
            have = sorted((x, nm) for x in dirs for nm in dirs[x])
            if have:
                x, nm = have[op[1] % len(have)]
                p = "/seg/pgc/%s/%s/%s" % (x[0], x[1], nm)
                fs.unlink(p)
                del dirs[x][nm]
                damaged.pop(p, None)
        elif k == "junk":
            x = keys[op[1] % len(keys)]
            kind = ["pgc", "gb"][op[2] % 2]
            fn = fname(x[0], x[1], kind)
            data = fs.get(fn)
            body = -1
            if data and data.find("\n---") >= 0:
                body = data.find("\n" + 30 * "-", data.find("\n---") + 4)
            if body > 0:
                fs.put(fn, data[:op[2] * 7 % body])
            else:
                fs.put(fn, "junk\n" * (op[2] % 3))
            tables[x[0], x[1], kind] = Bad
        elif k == "damage":
            have = sorted((x, nm) for x in dirs for nm in dirs[x])
            if have:
                x, nm = have[op[1] % len(have)]
                p = "/seg/pgc/%s/%s/%s" % (x[0], x[1], nm)
                data = fs.get(p)
                if p not in damaged:
                    damaged[p] = data
                    fs.put(p, data[:op[2] % (len(data.rstrip()) - 1)])
        elif k == "repair":
            for p in sorted(damaged):
                fs.put(p, damaged[p])
            damaged.clear()
        elif k == "run":
            once(plan, w, op[1], "r%d" % nruns, tables, keys, seg, fname,
                 compute, damaged, steps)
            nruns += 1
        else:
            raise HarnessError(k)
    return {"steps": steps, "nt": True}


def once(plan, w, targets, who, tables, keys, seg, fname, compute, damaged,
         steps):
    fs = w.fs
    cwd = plan["cwd"]
    fl = [f for x, f in plan["faults"] if x == who]
    q = plan.get("quota")
    s = Session(w, who, cwd, fl)
    if q and q[0] == who:
        w.quota = q[1]
    counts = dict(w.fault_counts)

    def go():
        from daeso.stats.corpus import corpus_seg_stats
        corpus_seg_stats(targets, seg, annot_dirs=tuple(plan["annots"]),
                         subseg_dirs=plan["subs"], verbose=plan["verbose"])
    before = fs.listing()
    out = s.do(go)
    w.quota = None
    hit = bool(s.p.fired) or bool(q and q[0] == who)
    where = s.p.cwd
    dead = s.p.dead
    steps[who] = marks(s.p)
    s.end()
    new = [k for k, x in w.fault_counts.items() if x != counts.get(k)]
    if not dead and where != cwd and not [k for k in new if ":chdir" in k]:
        violate("cwd", "working directory is %s, was %s, after %r"
                % (where, cwd, out))
    # what should be there now
    t = targets or ["all"]
    want = {}
    reason = None
    for a, sub in keys:
        hitme = "all" in t or a in t or sub in t or a + "." + sub in t
        c = compute(a, sub) if hitme else None
        for kind in ("pgc", "gb"):
            want[a, sub, kind] = c[kind] if c else \
                tables.get((a, sub, kind))
            if want[a, sub, kind] is Bad:
                reason = "junk"
        if hitme and [p for p in damaged
                      if p.startswith("/seg/pgc/%s/%s/" % (a, sub))]:
            reason = "damaged"
    for kind in ("pgc", "gb"):
        tot = []
        for a in plan["annots"]:
            rows = [r for sub in plan["subs"]
                    if want[a, sub, kind] is not Bad
                    for r in (want[a, sub, kind] or [])]
            want[a, None, kind] = rows or None
            tot += rows
        want[None, None, kind] = tot or None
    ok = out.kind == "ok"
    if ok and reason:
        violate("silent", "finished in spite of %s tables or corpora" % reason)
    if not ok and not hit and not reason:
        violate("failed", "%r\n%s" % (out, out.tb))
    mine = {}
    for key in want:
        a, sub, kind = key
        mine[fname(a, sub, kind)] = key
    after = fs.listing()
    for p in sorted(set(before) | set(after)):
        if p in mine:
            continue
        if p in before and before[p] != after.get(p):
            violate("changed", p)
        if p not in before:
            if ok or (not hit):
                violate("leftover", p)
            fs.unlink(p)
    for fn in sorted(mine):
        key = mine[fn]
        text = fs.get(fn)
        old = tables.get(key)
        exp = want[key]
        if text is None:
            if exp is not None and (ok or (old is not None)):
                violate("missing", "%s after %r" % (fn, out))
            if exp is None or ok:
                tables[key] = None
            continue
        got = parse(text, key[2])
        if before.get(fn) == after[fn] and old is Bad and not ok:
            continue
        if got is Bad:
            violate("damaged", "%s is not complete after %r: %s"
                    % (fn, out, brief(text, 300)))
        d = "it should be absent" if exp is None else \
            same(got, exp, key[2], key[1] is not None or True)
        if d is None:
            tables[key] = exp
            continue
        if ok:
            violate("table", "%s: %s" % (fn, d))
        if old is None or old is Bad or same(got, old, key[2]) is not None:
            violate("mixed", "%s is neither old nor new after %r: %s"
                    % (fn, out, d))
