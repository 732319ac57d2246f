# -*- coding: utf-8 -*-
"""
C13 statistics tables read back as they were written
"""
import copy
from lib import *

SHRINK = ("ops", "tables.*.rows", "faults", "tables")
SIMPLER = (("world.buf", [4096]),)

P = ("CORPUS s,CGP c,CGPFU c,CGPFP c,CGPUR c,PGPFU p,PGPFP p,PGPUR p,CNP c,"
     "CEQ c,CRE c,CGEN c,CSPEC c,CINT c,PEQ p,PRE p,PGEN p,PSPEC p,PINT p")
G = ("BANK s,CG c,CGA c,CGU c,CGSA c,CGMA c,CGUR c,CGFP c,PGA p,PGSA p,PGMA p,"
     "PGUR p,PGFP p,CT c,ATG a,CN c,ANG a,CNA c,CNU c,PNA p")
COLS = {"pgc": [x.split() for x in P.split(",")],
        "gb": [x.split() for x in G.split(",")]}
NAMES = ["a.pgc", "b-1.xml", "a longer name with spaces.pgc", "x", "no  1.pgc",
         "12 34.5 6.pgc", "17", "3.00 4.00", "-", "--- a", "CORPUS", "a\tb",
         "a" * 60, "(x)", "100%.pgc", "%s %d", "----x"]


def gen(rng, tier):
    tables = []
    for _ in range(rng.int(1, 3)):
        kind = rng.choice(["pgc", "gb", "own"])
        cols = COLS.get(kind)
        if kind == "own":
            cols = [["NAME", "s"]] + [
                [rng.choice(["C", "P", "AVERAGES"]) + "%d" % i,
                 rng.choice("cpa")] for i in range(rng.int(1, 5))]
        size = rng.choice([3, 6, 18])
        rows = []
        for _ in range(rng.weighted([(0, 1), (1, 2), (2, 2), (5, 2),
                                     (12, 1)])):
            row = [rng.choice(NAMES)]
            for c in cols[1:]:
                if c[1] == "c":
                    row.append(rng.below(10 ** rng.int(1, size)))
                elif c[1] == "p":
                    row.append(rng.below(10001) / 100.0)
                else:
                    row.append(rng.below(10 ** rng.int(1, 6)) / 100.0)
            rows.append(row)
        tables.append({"kind": kind, "cols": cols, "rows": rows,
                       "legenda": rng.chance(0.3), "sum": rng.chance(0.7)})
    ops = []
    for _ in range(rng.int(1, 6)):
        ops.append([rng.weighted([("read", 5), ("cut", 4), ("fail", 2),
                                  ("gone", 1), ("again", 1)]),
                    rng.below(len(tables)), rng.below(1 << 20),
                    rng.choice(["name", "file", "string"]), rng.chance(0.6)])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 700, 8192])},
            "tables": tables, "ops": ops, "faults": shorts(rng, 0.5)}


def mk(t):
    from daeso.stats.table import StatsTable
    from daeso.pgc.pgcstats import PgcStatsTable
    from daeso.gb.gbstats import GbStatsTable
    if t["kind"] == "pgc":
        return PgcStatsTable()
    if t["kind"] == "gb":
        return GbStatsTable()
    kinds = {"s": "string", "c": "count", "p": "percent", "a": "average"}

    class Own(StatsTable):
        columns_def = "\n".join("%s %s about %s" % (c, kinds[k], c)
                                for c, k in t["cols"])
    return Own()


def look(tab, t, rows, what):
    if [str(k) for k in tab.keys()] != [c[0] for c in t["cols"]]:
        violate("columns", "%s: %r" % (what, tab.keys()))
    got = [list(r) for r in zip(*tab.values())]
    sizes = set(len(c) for c in tab.values())
    if len(sizes) > 1:
        violate("ragged", "%s: columns of %r rows" % (what, sorted(sizes)))
    if len(got) != len(rows):
        violate("rows", "%s: %d rows, should be %d"
                % (what, len(got), len(rows)))
    for r, x in zip(got, rows):
        for c, a, b_ in zip(t["cols"], r, x):
            if c[1] == "s":
                ok = a == b_
            elif c[1] == "c":
                ok = a == b_ and isinstance(a, (int, long))
            else:
                ok = isinstance(a, float) and abs(a - b_) <= 0.00501
            if not ok:
                violate("value", "%s: %s is %r, should be %r"
                        % (what, c[0], a, b_))
    if tab.is_empty() != (not rows):
        violate("empty", "%s: is_empty() is %r with %d rows"
                % (what, tab.is_empty(), len(rows)))


def overall(tab, t, rows, what):
    for k, c in enumerate(t["cols"]):
        if c[1] == "c" and tab[c[0]].overall != sum(r[k] for r in rows):
            violate("overall", "%s: %s is %r, should be %r"
                    % (what, c[0], tab[c[0]].overall,
                       sum(r[k] for r in rows)))
    want = {}
    tot = dict((c[0], sum(r[k] for r in rows))
               for k, c in enumerate(t["cols"]) if c[1] == "c")
    if t["kind"] == "pgc":
        for k in ("FU", "FP", "UR"):
            want["PGP" + k] = ("CGP" + k, "CGP", 100.0)
        for k in ("EQ", "RE", "GEN", "SPEC", "INT"):
            want["P" + k] = ("C" + k, "CNP", 100.0)
    elif t["kind"] == "gb":
        for k, x, y in (("PGA", "CGA", "CG"), ("PGFP", "CGFP", "CG"),
                        ("PGUR", "CGUR", "CG"), ("PGSA", "CGSA", "CGA"),
                        ("PGMA", "CGMA", "CGA"), ("PNA", "CNA", "CN")):
            want[k] = (x, y, 100.0)
        want["ATG"] = ("CT", "CG", 1.0)
        want["ANG"] = ("CN", "CG", 1.0)
    for k in sorted(want):
        x, y, f = want[k]
        v = tab[k].overall
        if not tot[y]:
            if v is not None:
                violate("overall", "%s: %s is %r of nothing" % (what, k, v))
        elif v is None or abs(v - f * tot[x] / tot[y]) > 1e-6 * (1 + abs(v)):
            violate("overall", "%s: %s is %r, should be %r"
                    % (what, k, v, f * tot[x] / tot[y]))


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    s = Session(w, "p", "/work")
    files = []

    def write(n, t, tab):
        fn = "/work/t%d" % n
        f = open(fn, "w")
        tab.write(legenda=t["legenda"], out=f)
        f.close()
        return fn

    def fill(tab, t):
        tab.grow(len(t["rows"]))
        for i, row in enumerate(t["rows"]):
            for c, v in zip(t["cols"], row):
                tab[c[0]][i] = v
        if t["sum"]:
            tab.summarize()
    for n, t in enumerate(plan["tables"]):
        if len(set(c[0] for c in t["cols"])) != len(t["cols"]):
            raise Discard()
        tab = s.must("create", mk, t)
        s.must("fill", fill, tab, t)
        s.must("look", look, tab, t, t["rows"], "filled")
        if t["sum"]:
            s.must("overall", overall, tab, t, t["rows"], "summarized")
        files.append(s.must("write", write, n, t, tab))
        line = fs.get(files[-1]).split("\n")[3 + len(t["rows"])].split()
        over = [tab[c[0]].overall for c in t["cols"]
                if tab[c[0]].overall is not None]
        if t["kind"] == "own" and len(line) != len(over) or \
                t["kind"] == "own" and [
                    x for x, y in zip(line, over)
                    if abs(float(x) - y) > 0.00501]:
            violate("overall", "printed as %r, should be %r" % (line, over))
    s.end()
    s = Session(w, "q", "/work", plan["faults"])
    tabs = {}
    for op in plan["ops"]:
        n = op[1] % len(files)
        t = plan["tables"][n]
        if n not in tabs or not op[4]:
            tabs[n] = [s.must("create", mk, t), []]
        tab, rows = tabs[n]
        fn = files[n]
        data = fs.get(fn)
        sure = True             # must it be read?
        if op[0] == "cut" and [r for r in t["rows"] if r[0][:4] == "----"]:
            pass        # part of such a name looks like the end of the rows
        elif op[0] == "cut":
            cut = op[2] % len(data)
            lines = data.split("\n")
            k = 2 + len(t["rows"])
            safe = len("\n".join(lines[:k])) + 1 + 4
            fn = "/work/cut"
            fs.put(fn, data[:cut])
            sure = None if cut < safe else "either"
            if cut >= safe + len(lines[k]) - 4:
                sure = True
        elif op[0] == "gone":
            fn = "/work/none"
            sure = None
        how = op[3]

        def read():
            if how == "name":
                return tab.read(fn)
            f = open(fn)
            if how == "string":
                import StringIO
                f = StringIO.StringIO(f.read())
            return tab.read(f)
        if op[0] == "fail":
            k = s.p.kindsteps.get("read", 0)
            f = {"k": "read", "at": k + 1 + op[2] % 3, "f": "err", "a": op[2]}
            s.p.faults.append(f)
            if how == "string":
                how = "file"
        nf = len([x for x in s.p.fired if x != "short"])
        out = s.do(read)
        hit = len([x for x in s.p.fired if x != "short"]) > nf
        if op[0] == "fail":
            s.p.faults.remove(f)
        if out.kind == "ok":
            if hit and op[0] == "fail":
                # only an error after the end of the rows may go unnoticed
                sure = "either"
            if sure is None:
                violate("silent", "%s read without an error" % op[0])
            rows.extend(t["rows"])
        elif sure is True and not hit:
            violate("failed:read", "%r\n%s" % (out, out.tb))
        s.must("look", look, tab, t, rows, op[0])
        if op[0] in ("read", "again"):
            s.must("summarize", tab.summarize)
            # what is known of percentages has two decimals, counts are exact
            s.must("overall", overall, tab, t, rows, op[0])
        if op[0] == "again":
            fn2 = s.must("write", write, 90, t, tab)
            tab2 = s.must("create", mk, t)
            s.must("read", tab2.read, fn2)
            s.must("look", look, tab2, t, rows, "written again")
    s.end()
    return {"nt": len(plan["ops"]) > 0}
