# -*- coding: utf-8 -*-
"""
C12 statistics equal an independent recount
"""
import copy
import posixpath
import string
from lib import *
import model as M

SHRINK = ("faults", "files", "model.pairs", "model.pairs.*.align", "opts",
          "model.banks.*.graphs")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("world.buf", [4096]), ("bad", [None]), ("full", [None]))

RELS = ["equals", "generalizes", "intersects", "restates", "specifies"]
SHORT = {"equals": "EQ", "restates": "RE", "generalizes": "GEN",
         "specifies": "SPEC", "intersects": "INT"}
PCOLS = ("CORPUS CGP CGPFU CGPFP CGPUR PGPFU PGPFP PGPUR CNP CEQ CRE CGEN "
         "CSPEC CINT PEQ PRE PGEN PSPEC PINT").split()
GCOLS = ("BANK CG CGA CGU CGSA CGMA CGUR CGFP PGA PGSA PGMA PGUR PGFP CT ATG "
         "CN ANG CNA CNU PNA").split()


def gen(rng, tier):
    while True:
        m = M.gen_model(rng, maxbanks=3, maxgraphs=4, minpairs=1,
                        maxpairs=rng.choice([3, 9]), rels=RELS, empty=True,
                        failed=True, formats=["graphml", "alpino", "alpino"],
                        dirs=["/data/gb", "/data/pgc"])
        if m["pairs"]:
            break
    for p in m["pairs"]:
        g = [M.graph_of(m, p, k)["root"] for k in (0, 1)]
        if None not in g and rng.chance(0.6):
            p["align"] = [x for x in p["align"]
                          if x[0] != g[0] and x[1] != g[1]]
            p["align"] = sorted(p["align"] + [[g[0], g[1], rng.choice(RELS)]])
    n = len(m["pairs"])
    files = [{"name": "c%s.pgc" % rng.choice(["%d" % i, "orpus no %d" % i]),
              "pairs": [rng.below(n) for _ in range(rng.int(0, 5))]}
             for i in range(rng.int(1, 3))]
    names = ["-e", "-f", "-p", "-r", "-u", "-l", "-a"]
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([32, 512, 4096])},
            "model": m, "files": files, "style": M.gen_style(rng),
            "opts": rng.subset(names, rng.choice([0.2, 0.6])),
            "which": rng.weighted([("pgc", 3), ("gb", 1), ("api", 1)]),
            "format": rng.choice(["alpino", "graphml"]),
            "cwd": rng.choice(["/data/pgc", "/work"]),
            "bad": rng.weighted([(None, 8), ("none", 1), ("damaged", 1),
                                 ("bank", 1), ("relation", 2)]),
            "at": rng.below(997), "full": None, "faults": []}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(3 if tier == "quick" else 15):
        p = norm(plan)
        k = rng.weighted([("crash", 1), ("err", 5), ("short", 3), ("full", 2),
                          ("intr", 1)])
        if k == "full" and plan["which"] != "api":
            p["full"] = rng.below(rng.choice([100, 3000]))
        else:
            p["faults"] = [place(rng, base["steps"]["p"],
                                 (k if k != "full" else "err",))]
            if k == "short":
                p["faults"] = shorts(rng, 1) + p["faults"]
        out.append(p)
    return out


# ---- recount

class Unknown(Exception):
    "a relation that is to be counted, but cannot be"


def empty(nd):
    return not nd["tokens"]


def punct(nd):
    return bool(nd["tokens"]) and all(t in string.punctuation
                                      for t in nd["tokens"])


def node(g, i):
    for nd in g["nodes"]:
        if nd["id"] == i:
            return nd


def keep(nd, o):
    return (o["p"] or not punct(nd)) and (o["e"] or not empty(nd))


def pct(a, b_):
    return 100.0 * a / b_ if b_ else None


def recount(m, pairs, o):
    "-> counts of a corpus, and of each graphbank in it"
    c = dict((k, 0) for k in PCOLS if k[0] == "C")
    used = {}           # graph -> [as source, as target, roots unaligned]
    nused = set()
    banks = set()
    for p in pairs:
        gs = [M.graph_of(m, p, k) for k in (0, 1)]
        banks.update(p["b"])
        failed = [g for g in gs if g.get("failed")]
        ends = [gs[0]["root"], gs[1]["root"]]
        loose = ends not in [x[:2] for x in p["align"]]
        if (failed and not o["f"]) or (loose and not o["r"]):
            continue
        c["CGP"] += 1
        c["CGPFP"] += bool(failed)
        c["CGPUR"] += loose
        c["CGPFU"] += not failed and not loose
        for k in (0, 1):
            u = used.setdefault((p["b"][k], p["g"][k]), [0, 0, False])
            u[k] += 1
            u[2] = u[2] or loose
        for s, t, r in p["align"]:
            if keep(node(gs[0], s), o) and keep(node(gs[1], t), o):
                c["CNP"] += 1
                if r not in SHORT:
                    raise Unknown()
                c["C" + SHORT[r]] += 1
                nused.add((p["b"][0], p["g"][0], s))
                nused.add((p["b"][1], p["g"][1], t))
    return c, [bank_count(m, i, used, nused, o) for i in sorted(banks)]


def bank_count(m, i, used, nused, o):
    b = m["banks"][i]
    c = dict((k, 0) for k in GCOLS if k[0] == "C")
    c["BANK"] = posixpath.basename(b["path"])
    for g in b["graphs"]:
        u = used.get((i, g["id"]), [0, 0, False])
        if (g.get("failed") and not o["f"]) or (u[2] and not o["r"]):
            continue
        if not (u[0] or u[1]) and not o["u"]:
            continue
        c["CG"] += 1
        c["CGFP"] += bool(g.get("failed"))
        c["CGUR"] += u[2]
        if u[0] or u[1]:
            c["CGA"] += 1
            c["CGSA" if 1 in u[:2] else "CGMA"] += 1
        else:
            c["CGU"] += 1
        c["CT"] += len([t for t in g["tokens"]
                        if o["p"] or t not in string.punctuation])
        for nd in g["nodes"]:
            if keep(nd, o):
                c["CN"] += 1
                c["CNA" if (i, g["id"], nd["id"]) in nused else "CNU"] += 1
    return c


def derive(c):
    "percentages and averages"
    if "CGP" in c:
        for k in ("FU", "FP", "UR"):
            c["PGP" + k] = pct(c["CGP" + k], c["CGP"])
        for k in SHORT.values():
            c["P" + k] = pct(c["C" + k], c["CNP"])
    else:
        for k, x, y in (("PGA", "CGA", "CG"), ("PGFP", "CGFP", "CG"),
                        ("PGUR", "CGUR", "CG"), ("PGSA", "CGSA", "CGA"),
                        ("PGMA", "CGMA", "CGA"), ("PNA", "CNA", "CN")):
            c[k] = pct(c[x], c[y])
        for k, x in (("ATG", "CT"), ("ANG", "CN")):
            c[k] = float(c[x]) / c["CG"] if c["CG"] else None
    return c


def total(rows, cols):
    t = dict((k, sum(r[k] for r in rows)) for k in cols if k[0] == "C" and
             k != "CORPUS")
    return derive(t)


# ---- reading what was printed

def read_tables(text):
    "-> [(columns, [row], overall)], None when it is not complete"
    lines = text.split("\n")
    res = []
    i = 0
    while i < len(lines):
        if not lines[i].strip():
            i += 1
            continue
        cols = lines[i].split()
        if cols[0] not in ("CORPUS", "BANK"):
            i += 1          # legenda
            continue
        ends = []
        at = 0
        for c in cols:
            at = lines[i].index(c, at) + len(c)
            ends.append(at)
        i += 1
        if i >= len(lines) or not lines[i].startswith("----"):
            return None
        i += 1
        rows = []
        while i < len(lines) and not lines[i].startswith("----"):
            x = lines[i].rsplit(None, len(cols) - 1)
            if len(x) != len(cols):
                return None
            rows.append(dict(zip(cols, [x[0].strip()] +
                                 [float(y) for y in x[1:]])))
            i += 1
        i += 1
        if i >= len(lines):
            return None
        over = {}
        for k in range(1, len(cols)):
            x = lines[i][ends[k - 1] if k > 1 else 0:ends[k]].strip()
            over[cols[k]] = float(x) if x else None
        res.append((cols, rows, over))
        i += 1
    return res


def close(a, b_):
    if a is None or b_ is None:
        return a is None and b_ is None
    return abs(a - b_) <= 0.00501


def compare(what, cols, got, over, want, wantover):
    key = lambda r: canon([r[c] if r[c] is not None else 0 for c in cols
                           if c[0] == "C" or c == "BANK"])
    if len(got) != len(want):
        violate("rows", "%d rows of %s, should be %d"
                % (len(got), what, len(want)))
    got = sorted(got, key=lambda r: canon([str(r[cols[0]])] +
                                          [int(r[c]) for c in cols[1:]
                                           if c[0] == "C"]))
    want = sorted(want, key=lambda r: canon([str(r[cols[0]])] +
                                            [int(r[c]) for c in cols[1:]
                                             if c[0] == "C"]))
    for g, x in zip(got, want):
        if g[cols[0]] != x[cols[0]]:
            violate("name", "%r, should be %r" % (g[cols[0]], x[cols[0]]))
        for c in cols[1:]:
            if not close(g[c], x[c] or 0):
                violate("number", "%s of %s is %s, should be %s"
                        % (c, g[cols[0]], g[c], x[c]))
    for c in cols[1:]:
        if not close(over[c], wantover[c]):
            violate("overall", "overall %s is %s, should be %s"
                    % (c, over[c], wantover[c]))


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    for d in ("/data/pgc", "/work", "/data/gb"):
        fs.mkdirs(d)
    M.put_banks(fs, m)
    if plan["bad"] == "relation" and plan["which"] != "gb":
        m = copy.deepcopy(m)
        al = [x for p in m["pairs"] for x in p["align"]]
        if not al:
            raise Discard()
        r = al[plan["at"] % len(al)][2]
        for x in al:
            if x[2] == r:
                x[2] = "resembles"
        m["relations"] = m["relations"] + ["resembles"]
    names = {}
    for f in plan["files"]:
        p = "/data/pgc/" + f["name"]
        if p in names:
            raise Discard()
        pairs = []
        for i in f["pairs"]:
            if i >= len(m["pairs"]):
                raise Discard()
            pairs.append(m["pairs"][i])
        names[p] = pairs
        fs.put(p, M.corpus_xml(dict(m, pairs=pairs), p, plan["style"]))
    fs.put("/data/pgc/notes.txt", "no corpus")
    o = dict((k, "-" + k in plan["opts"] or "-a" in plan["opts"])
             for k in "efpru")
    which = plan["which"]
    bad = plan["bad"]
    rel = plan["cwd"] == "/data/pgc"
    fail = False
    if which == "gb":
        fmt = plan["format"]
        want = []
        for d in ("/data/gb", "/data/pgc"):
            for i, b in enumerate(m["banks"]):
                new = "%s.%s" % (b["path"], fmt[:3])
                if b["format"] == fmt and posixpath.dirname(b["path"]) == d:
                    fs.put(new, fs.get(b["path"]))
                    c = bank_count(m, i, {}, set(),
                                   dict(o, u=True, r=True))
                    c["BANK"] = posixpath.basename(new)
                    want.append(derive(c))
        if not want:
            raise Discard()
        argv = [x for x in plan["opts"] if x not in ("-r", "-u")] + \
            ["-F", fmt, "/data/*/*." + fmt[:3]]
        cands = [b["path"] + "." + fmt[:3] for b in m["banks"]
                 if b["format"] == fmt]
        if bad == "bank":
            bad = "damaged"
    else:
        prow, want = [], []
        for p in sorted(names):
            try:
                c, bs = recount(m, names[p], o)
            except Unknown:
                w.probe("unknown relation")
                fail = True
                continue
            c["CORPUS"] = posixpath.basename(p)
            prow.append(derive(c))
            want.extend(derive(x) for x in bs)
        argv = plan["opts"] + ["*.pgc" if rel else "/data/pgc/*.pgc"]
        cands = sorted(names)
    if bad == "none":
        argv[-1] = "/data/pgc/zzz*"
        fail = True
    elif bad == "damaged":
        p = cands[plan["at"] % len(cands)]
        data = fs.get(p)
        fs.put(p, data[:plan["at"] * 7 % max(1, len(data.rstrip()) - 1)])
        fail = True
    elif bad == "bank":
        # the banks that the corpora list
        i = plan["at"] % len(m["banks"])
        p = m["banks"][i]["path"]
        if plan["at"] % 2:
            fs.unlink(p)
        else:
            data = fs.get(p)
            fs.put(p, data[:plan["at"] * 7 % max(1, len(data.rstrip()) - 1)])
        fail = bool(names)
    before = fs.listing()
    if which == "api":
        s = Session(w, "p", plan["cwd"], plan["faults"])

        def go():
            from daeso.pgc.pgcstats import pgc_stats
            from daeso.utils.opsys import glob
            fns = glob(argv[-1])
            if not fns:
                raise IOError("no files")
            a, b_ = pgc_stats(fns, with_empty_nodes=o["e"],
                              with_failed_parses=o["f"], with_punc=o["p"],
                              with_unaligned_roots=o["r"],
                              with_unaligned_graphs=o["u"])
            res = []
            for t in (a, b_):
                rows = [dict(zip(t.keys(), x)) for x in zip(*t.values())]
                res.append((t.keys(), rows,
                            dict((k, c.overall) for k, c in t.items())))
            return res
        out = s.do(go)
        proc = s.p
        tables = out.value
        s.end()
    else:
        out, proc = tool(w, which + "_stats.py", argv, "p", plan["cwd"],
                         plan["faults"], stdout_full=plan["full"])
        tables = None
        if not out.failed and out.kind != "crash":
            tables = read_tables(proc.stdout.getvalue())
    steps = {"p": marks(proc)}
    if fs.listing() != before:
        violate("changed", "counting changed the files")
    if out.kind == "crash":
        return {"nt": True, "steps": steps}
    if out.failed:
        if not (proc.fired or plan["full"] is not None or fail):
            violate("failed", "%r %s" % (out, out.tb or ""))
        return {"nt": True, "steps": steps}
    if fail:
        violate("silent", "success in spite of a fault in the input (%s)"
                % bad)
    if tables is None:
        violate("silent", "success without tables:\n"
                + brief(proc.stdout.getvalue(), 1000))
    if which == "gb":
        exp = [(GCOLS, want)]
    else:
        exp = [(PCOLS, prow), (GCOLS, want)]
    if [t[0] for t in tables] != [x[0] for x in exp]:
        violate("columns", repr([t[0] for t in tables]))
    for t, x in zip(tables, exp):
        compare(x[0][0], x[0], t[1], t[2], x[1], total(x[1], x[0]))
    return {"nt": True, "steps": steps}
