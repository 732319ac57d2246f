# -*- coding: utf-8 -*-
"""
C23 evaluation and agreement numbers are exact
"""
import copy
import math
import posixpath
import re
from lib import *
import model as M
import ptcm as T

SHRINK = ("faults", "groups", "files", "model.pairs", "model.pairs.*.align",
          "docs", "docs.*.links")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("words", [False]), ("pickle", [None]), ("full", [None]),
           ("world.buf", [4096]), ("bad", [None]))

RELS = ["equals", "restates", "specifies", "generalizes", "intersects"]
ANY = "__any_rel__"
COUNTS = ["true", "pred", "common"]
MEASURES = ["prec", "rec", "f"]


# --------------------------------------------------------------------------
# plans
# --------------------------------------------------------------------------

def vary(rng, m, o):
    "what another annotator makes of it: alignments of each pair"
    out = []
    for p in m["pairs"]:
        al = [list(x) for x in p["align"] if not rng.chance(o["drop"])]
        for x in al:
            if rng.chance(o["relabel"]):
                x[2] = rng.choice(RELS)
        if rng.chance(o["swap"]) and len(al) > 1:
            i, j = rng.below(len(al)), rng.below(len(al))
            al[i][1], al[j][1] = al[j][1], al[i][1]
        if rng.chance(o["new"]):
            s = [n["id"] for n in M.graph_of(m, p, 0)["nodes"]]
            t = [n["id"] for n in M.graph_of(m, p, 1)["nodes"]]
            s = [x for x in s if x not in [a[0] for a in al]]
            t = [x for x in t if x not in [a[1] for a in al]]
            for a, b in list(zip(rng.shuffle(s), rng.shuffle(t)))[:2]:
                al.append([a, b, rng.choice(RELS)])
        out.append(sorted(al))
    return out


def gen(rng, tier):
    which = rng.weighted([("agree", 4), ("api", 3), ("eval", 4), ("diff", 2),
                          ("ptc", 3)])
    p = {"world": {"seed": rng.below(1 << 30),
                   "buf": rng.choice([32, 512, 4096])},
         "which": which, "faults": [], "full": None,
         "cwd": rng.choice(["/data/pgc", "/work"]), "old": rng.chance(0.5),
         "style": M.gen_style(rng),
         "bad": rng.weighted([(None, 12), ("missing", 1), ("damaged", 1),
                              ("short", 1), ("names", 1)]),
         "at": rng.below(997)}
    if which == "ptc":
        if rng.chance(0.2):
            p["bad"] = rng.choice(["short", "names", "missing"])
        by = rng.choice(["id", "n", "n", None])
        p["tag"] = rng.choice(["s", "s", None, "p"])
        p["docs"] = []
        for _ in range(rng.int(1, 4)):
            base = [link(rng, by) for _ in range(rng.below(8))]
            two = [rng.subset(base, 0.8) + [link(rng, by) for _ in
                                            range(rng.below(3))]
                   for _ in (0, 1)]
            for links in two:
                rng.shuffle(links)
                d = T.gen_doc(rng)
                d["method"], d["links"] = by, links
                p["docs"].append(d)
        return p
    numeric = which == "diff"
    while True:
        m = M.gen_model(rng, maxbanks=2, maxgraphs=3, minpairs=1,
                        maxpairs=rng.choice([2, 6]), rels=RELS,
                        formats=["alpino"] if numeric else
                        ["graphml", "alpino"],
                        dirs=["/data/gb", "/data/pgc"],
                        **({"nodeids": "num"} if numeric else {}))
        if m["pairs"]:
            break
    o = {"drop": rng.choice([0, 0.1, 0.4, 1]),
         "relabel": rng.choice([0, 0.2, 0.7]), "swap": rng.choice([0, 0.5]),
         "new": rng.choice([0, 0.5])}
    n = 2 if numeric else rng.int(2, 4) if rng.chance(0.95) else 1
    names = rng.shuffle(["ann%d.pgc" % i for i in range(n)])
    p.update(model=m, files=[{"name": x, "align": vary(rng, m, o)}
                             for x in names])
    p["names"] = rng.choice([None, None, ["EM", "FW", "a", "Zz"],
                             ["b", "a", "d", "c"],
                             ["annotator-x", "annotator-y", "ann", "A1"]])
    p["words"] = rng.chance(0.3) and which in ("agree", "api")
    p["pickle"] = rng.choice([None, "out.pickle", "/data/res/x.p"])
    if which == "eval":
        # history of comparisons; files may be used several times
        p["groups"] = [[rng.below(n), rng.below(n),
                        rng.choice([None, "name%d" % i, "x", "b.pgc"])]
                       for i in range(rng.int(1, 5))]
        p["early"] = rng.chance(0.3)
    return p


def link(rng, by):
    a = rng.choice(["s", "s", "s", "p"])
    b = a if rng.chance(0.8) else rng.choice(["s", "p"])
    x = [rng.choice(["1", "2", "3", "12"]) for _ in (0, 1)]
    if by == "id":
        x = ["%s%s" % (rng.choice("st"), y) for y in x]
    k = "id" if by == "id" else "n"
    return [["from_tag", a], ["from_" + k, x[0]],
            ["to_tag", b], ["to_" + k, x[1]]]


def faults(rng, plan, base, tier):
    out = []
    for _ in range(3 if tier == "quick" else 15):
        p = norm(plan)
        k = rng.weighted([("crash", 3), ("err", 5), ("short", 1), ("full", 2),
                          ("intr", 1)])
        if k == "full" and plan["which"] in ("agree", "diff", "ptc"):
            p["full"] = rng.below(rng.choice([100, 3000]))
        else:
            k = "err" if k == "full" else k
            p["faults"] = [place(rng, base["steps"]["p"], (k,))]
            if k == "short":
                p["faults"] = shorts(rng, 1) + p["faults"]
        out.append(p)
    return out


# --------------------------------------------------------------------------
# the numbers
# --------------------------------------------------------------------------

def div(a, b):
    return a / float(b) if b else 0.0


def scores(c):
    p, r = div(c["common"], c["pred"]), div(c["common"], c["true"])
    return {"prec": p, "rec": r, "f": div(2 * p * r, p + r)}


def compare(true, pred):
    "-> relation -> counts"
    out = dict((r, dict.fromkeys(COUNTS, 0)) for r in RELS + [ANY])
    for ta, pa in zip(true, pred):
        t = dict(((a, b), r) for a, b, r in ta)
        p = dict(((a, b), r) for a, b, r in pa)
        for k, r in t.items():
            out[r]["true"] += 1
            out[ANY]["true"] += 1
            out[ANY]["common"] += k in p
            out[r]["common"] += p.get(k) == r
        for k, r in p.items():
            out[r]["pred"] += 1
            out[ANY]["pred"] += 1
    return out


def spread(values, mean, s):
    v = div(sum((x - mean) ** 2 for x in values), len(values) - 1) \
        if len(values) > 1 else 0.0
    return {"mean": mean, "var": v, "sd": math.sqrt(v)}


def evaluation(comps):
    "all numbers of a list of comparisons"
    out = {"rel": {}}
    for r in RELS + [ANY]:
        rows = [c[r] for c in comps]
        t = {"rows": [dict(x, **scores(x)) for x in rows], "counts": {},
             "macro": {}, "micro": {}}
        n = float(len(rows))
        sums = dict((k, sum(x[k] for x in rows)) for k in COUNTS)
        for k in COUNTS:
            t["counts"][k] = dict(spread([x[k] for x in rows], sums[k] / n, n),
                                  sum=sums[k])
        micro = scores(sums)
        for k in MEASURES:
            vals = [x[k] for x in t["rows"]]
            t["macro"][k] = spread(vals, sum(vals) / n, n)
            t["micro"][k] = spread(vals, micro[k], n)
        out["rel"][r] = t
    out["sum"] = dict((k, sum(out["rel"][r]["counts"][k]["sum"]
                              for r in RELS)) for k in COUNTS)
    out["micro"] = scores(out["sum"])
    out["macro"] = dict((k, sum(out["rel"][r]["micro"][k]["mean"]
                                for r in RELS) / float(len(RELS)))
                        for k in MEASURES)
    return out


def matrix(labels, cell):
    "an agreement table: rows true, columns predicted"
    out = dict((a, dict((b, cell(a, b)) for b in labels if a != b))
               for a in labels)
    mean, sd = {}, {}
    every = []
    for b in labels:
        col = [out[a][b] for a in labels if a != b]
        every += col
        mean[b] = sum(col) / float(len(col))
        sd[b] = spread(col, mean[b], 0)["sd"]
    mean["overall"] = sum(every) / float(len(every))
    sd["overall"] = spread(every, mean["overall"], 0)["sd"]
    out["mean"], out["SD"] = mean, sd
    return out


# what the objects show

def show_eval(e):
    out = {"rel": {}}
    for r in e:
        t = e[r]
        out["rel"][r] = {
            "rows": [dict(x.counts, **x.measures) for x in t],
            "counts": t.count_stats,
            "macro": dict((k, t.measure_stats[k]["macro"]) for k in MEASURES),
            "micro": dict((k, t.measure_stats[k]["micro"]) for k in MEASURES)}
    out["sum"] = dict((k, e.count_stats[k]["sum"]) for k in COUNTS)
    for w in ("macro", "micro"):
        out[w] = dict((k, e.measure_stats[k][w]["mean"]) for k in MEASURES)
    return out


def show_tables(tables):
    return dict((r, dict((m, dict((k, dict(row)) for k, row in t.items()))
                         for m, t in tables[r].items())) for r in tables)


def near(a, b, path="", tol=1e-9):
    "where two structures of numbers differ"
    if isinstance(a, dict):
        if not isinstance(b, dict) or sorted(a) != sorted(b):
            return "%s: %s != %s" % (path, brief(sorted(a)), brief(b))
        for k in sorted(a):
            d = near(a[k], b[k], "%s.%s" % (path, k), tol)
            if d:
                return d
        return None
    if isinstance(a, list):
        if not isinstance(b, list) or len(a) != len(b):
            return "%s: %r != %r" % (path, a, b)
        for i, x in enumerate(a):
            d = near(x, b[i], "%s[%d]" % (path, i), tol)
            if d:
                return d
        return None
    if isinstance(a, (int, long, float)) and \
            isinstance(b, (int, long, float)) and not isinstance(b, bool):
        return None if abs(a - b) <= tol else "%s: %r != %r" % (path, a, b)
    return None if a == b else "%s: %r != %r" % (path, a, b)


# what is printed

ROW = re.compile(r"^\s*(\S.*?)((?:\s+-?\d+(?:\.\d+)?)+)\s*$")


def printed(text):
    "-> [[title, heading, label, {column: number}]]"
    out = []
    title = heading = cols = None
    lines = text.splitlines()
    i = 0
    while i < len(lines):
        line = lines[i].strip()
        if line and set(line) == set("=") and i + 2 < len(lines):
            title, heading, cols = lines[i + 1].strip(), None, None
            i += 3
            continue
        i += 1
        if not line or set(line) == set("-"):
            continue
        m = ROW.match(line)
        if m:
            label = m.group(1).rstrip(": ")
            nums = [float(x) for x in m.group(2).split()]
            c = list(cols or [])
            if c[:1] in (["name"], ["relation"]):
                del c[0]
            elif len(nums) < len(c):
                # nothing on the diagonal, and no overall
                c = [x for x in c if x not in (label.lower(), "overall")]
            if len(nums) != len(c):
                c = range(len(nums))
            out.append([title, heading, label, dict(zip(c, nums))])
        elif line.endswith(":"):
            cols = [x.strip().lower() for x in line.split(":")[:-1]]
        else:
            heading, cols = line, None
    return out


def pcts(row):
    return dict((k, row[k] * 100) for k in MEASURES)


def rows_of(e, names):
    "the rows that must be printed for an evaluation"
    out = []

    def table(title, heading, t):
        for name, row in zip(names, t["rows"]):
            out.append([title, heading, name, dict((k, row[k])
                                                   for k in COUNTS)])
            out.append([title, heading, name, pcts(row)])
        for s in ("sum", "mean", "var", "sd"):
            out.append([title, heading, s.capitalize(),
                        dict((k, t["counts"][k][s]) for k in COUNTS)])
        for w in ("macro", "micro"):
            for s in ("mean", "var", "sd"):
                out.append([title, heading,
                            w.capitalize() + " " + s.capitalize(),
                            pcts(dict((k, t[w][k][s]) for k in MEASURES))])
    table("Alignment only", None, e["rel"][ANY])
    for r in RELS:
        table("Alignment per relation", r.upper(), e["rel"][r])
    a = "Alignment over all relations"
    for r in RELS:
        t = e["rel"][r]
        out.append([a, None, r, dict((k, t["counts"][k]["sum"])
                                     for k in COUNTS)])
        out.append([a, None, r, pcts(dict((k, t["micro"][k]["mean"])
                                          for k in MEASURES))])
    out.append([a, None, "Sum", e["sum"]])
    for w in ("macro", "micro"):
        out.append([a, None, w.capitalize() + " Mean", pcts(e[w])])
    return out


def rows_of_tables(tables, labels):
    out = []
    labels = sorted(labels)
    for r in tables:
        for m in tables[r]:
            t = tables[r][m]
            for a in labels + ["mean", "SD"]:
                cols = [b for b in labels if b != a]
                if a in ("mean", "SD"):
                    cols = labels + ["overall"]
                out.append(["Agreement on relation " + r, m.upper(), a,
                            dict((b.lower(), t[a][b] * 100) for b in cols)])
    return out


def check_rows(what, text, want):
    tabs = []
    for rows in (printed(text), want):
        tab = {}
        for title, heading, label, nums in rows:
            k = [(title or "").split(" (")[0], heading, label, sorted(nums)]
            tab.setdefault(canon(k), []).append(nums)
        tabs.append(tab)
    got, exp = tabs
    for k in sorted(set(got) | set(exp)):
        if k not in got or k not in exp:
            violate("printed", "%s: row %s is %s" % (
                what, k, "missing" if k not in got else "unexpected"))
        d = near(exp[k], got[k], k, 0.00501)
        if d:
            violate("printed", "%s: %s" % (what, d))


# --------------------------------------------------------------------------

def terminals(g):
    inner = set(e[0] for e in g["edges"])
    return set(n["id"] for n in g["nodes"] if n["id"] not in inner)


def only_words(m, aligns):
    out = []
    for p, al in zip(m["pairs"], aligns):
        s, t = [terminals(M.graph_of(m, p, k)) for k in (0, 1)]
        out.append([x for x in al if x[0] in s and x[1] in t])
    return out


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    for d in ("/data/pgc", "/data/res", "/work", "/data/texts"):
        fs.mkdirs(d)
    if plan["which"] == "ptc":
        return run_ptc(w, plan)
    m = plan["model"]
    if not m["pairs"] or not plan["files"]:
        raise Discard()
    M.put_banks(fs, m)
    paths, aligns = [], []
    bad = plan["bad"]
    for i, f in enumerate(plan["files"]):
        if len(f["align"]) < len(m["pairs"]):
            raise Discard()
        sub = copy.deepcopy(m)
        for p, al in zip(sub["pairs"], f["align"]):
            p["align"] = [list(x) for x in al]
            for side in (0, 1):
                ids = [n["id"] for n in M.graph_of(m, p, side)["nodes"]]
                if [x for x in al if x[side] not in ids]:
                    raise Discard()
        path = "/data/pgc/" + f["name"]
        if bad == "short" and i == 0:
            del sub["pairs"][-1]
        data = M.corpus_xml(sub, path, plan["style"])
        if bad == "damaged" and i == 0:
            data = data[:plan["at"] * 31 % max(1, len(data.rstrip()) - 1)]
        if not (bad == "missing" and i == 0):
            fs.put(path, data)
        paths.append(path)
        aligns.append([[list(x) for x in al]
                       for al in f["align"][:len(m["pairs"])]])
    if plan["words"]:
        aligns = [only_words(m, a) for a in aligns]
    if plan["which"] == "eval":
        return run_eval(w, plan, paths, aligns)
    if plan["which"] == "diff":
        return run_diff(w, plan, paths, aligns)
    return run_agree(w, plan, paths, aligns)


def run_agree(w, plan, paths, aligns):
    "agreement between annotators, by the tool or the functions"
    fs = w.fs
    n = len(paths)
    names = (plan["names"] or ["A%d" % (i + 1) for i in range(9)])[:n]
    fail = n < 2 or plan["bad"] in ("missing", "damaged", "short") or \
        (plan["bad"] == "names" and plan["names"])
    given = names[:-1] if plan["bad"] == "names" else names
    pick = plan["pickle"] and posixpath.join(plan["cwd"], plan["pickle"])
    old = None
    if pick and plan["old"]:
        old = "old results"
        fs.put(pick, old)
    before = fs.listing()
    api = plan["which"] == "api"
    if api:
        out, proc = agree_api(w, plan, paths, given if plan["names"] else None,
                              pick)
    else:
        argv = list(paths)
        if plan["cwd"] == "/data/pgc":
            argv = [posixpath.basename(x) for x in argv]
        for x in given if plan["names"] else []:
            argv += ["-a", x]
        if plan["words"]:
            argv += ["-w"]
        if plan["pickle"]:
            argv += ["-p", plan["pickle"]]
        out, proc = tool(w, "pgc_agreement.py", argv, "p", plan["cwd"],
                         plan["faults"], plan["full"])
    hit = bool(proc.fired) or plan["full"] is not None
    rep = {"nt": True, "steps": {"p": marks(proc)}}
    what = "agreement of %s: %r" % (names, out)
    if out.kind == "hang":
        violate("hang", what)
    ok = not out.failed and out.kind != "crash"
    if fail and ok and not loud(out, proc):
        violate("silent", what + " in spite of bad input")
    if not fail and not hit and (not ok or proc.stderr.getvalue()):
        violate("failed", "%s %s\n%s" % (what, proc.stderr.getvalue(),
                                         out.tb or ""))
    res = None
    if not fail:
        pairs = [(i, j) for i in range(n) for j in range(n) if i != j]
        comps = dict(((names[i], names[j]), compare(aligns[i], aligns[j]))
                     for i, j in pairs)
        order = [(names[i], names[j]) for i, j in pairs]
        e = evaluation([comps[x] for x in order])
        tables = dict((r, dict((k, matrix(names, lambda a, b:
                                          scores(comps[a, b][r])[k]))
                               for k in MEASURES)) for r in RELS + [ANY])
        res = [e, tables]
        w.probe("agreement")
        if ok and api:
            d = near(res, norm_keys(out.value))
            if d:
                violate("numbers", what + ": " + d)
        if ok and not api and not loud(out, proc):
            check_rows(what, proc.stdout.getvalue(),
                       rows_of(e, [str(x) for x in order]) +
                       rows_of_tables(tables, names))
    # the file of results
    after = fs.listing()
    for p in sorted(set(before) | set(after)):
        if p == pick or before.get(p, 0) == after.get(p, 0):
            continue
        if p in before or not hit or (
                out.kind != "crash" and len(proc.fired) == 1 and
                not [k for k in w.fault_counts if ":unlink" in k]):
            violate("changed", "%s: %s" % (what, p))
    if pick:
        data = fs.get(pick)
        if data == old:
            if ok and not fail and not loud(out, proc):
                violate("unsaved", what)
        elif fail:
            violate("written", what + " in spite of bad input")
        else:
            s = Session(w, "load", "/")

            def load():
                import pickle
                with open(pick, "rb") as f:
                    a, b = pickle.load(f)
                return [show_eval(a), show_tables(b)]
            x = s.do(load)
            if x.kind != "ok":
                violate("damaged", "%s: the results in %s are damaged: %r"
                        % (what, pick, x))
            s.end()
            d = near(res, norm_keys(x.value))
            if d:
                violate("stored", "%s: %s" % (what, d))
            w.probe("stored")
    return rep


def norm_keys(x):
    return x


def agree_api(w, plan, paths, names, pick):
    s = Session(w, "p", plan["cwd"], plan["faults"])

    def go():
        from daeso.pgc.agreement import cross_evaluate, tableize, run_eval
        if plan["at"] % 2:
            e, t = run_eval(paths, names, pick, words_only=plan["words"])
        else:
            e = cross_evaluate(paths, names, words_only=plan["words"])
            t = tableize(e)
            if pick:
                # in two files of their own, put together here
                cross_evaluate(paths, names, pick + "1", plan["words"])
                tableize(e, pick + "2")
                import os
                import pickle
                a = pickle.load(open(pick + "1", "rb"))
                b = pickle.load(open(pick + "2", "rb"))
                os.remove(pick + "1")
                os.remove(pick + "2")
                from daeso.utils.opsys import replacing
                with replacing(pick) as f:
                    pickle.dump((a, b), f)
        return [show_eval(e), show_tables(t)]
    out = s.do(go)
    s.end()
    if plan["at"] % 2 == 0:
        for x in "12":
            if pick and w.fs.get(pick + x) is not None:
                w.fs.unlink(pick + x)
    return out, s.p


def run_eval(w, plan, paths, aligns):
    "comparisons added one after another, evaluated in between and written"
    fs = w.fs
    groups = [g for g in plan["groups"]
              if g[0] < len(paths) and g[1] < len(paths)]
    if not groups:
        raise Discard()
    target = "/data/res/eval.txt"
    old = None
    if plan["old"]:
        old = "old"
        fs.put(target, old)
    before = fs.listing()
    fail = plan["bad"] in ("missing", "damaged") and \
        any(0 in g[:2] for g in groups)
    fail = fail or (plan["bad"] == "short" and
                    any((g[0] == 0) != (g[1] == 0) for g in groups))
    if plan["bad"] == "short":
        aligns[0] = aligns[0][:-1]
    s = Session(w, "p", plan["cwd"], plan["faults"])

    def go():
        from daeso.pgc.corpus import ParallelGraphCorpus, LOAD_NONE
        from daeso.pgc.evaluate import AlignEval
        corpora = {}
        for i in sorted(set(x for g in groups for x in g[:2])):
            corpora[i] = ParallelGraphCorpus(inf=paths[i],
                                             graph_loading=LOAD_NONE)
        shown = dict((i, M.snap(c, False)) for i, c in corpora.items())
        e = AlignEval()
        for k, (i, j, name) in enumerate(groups):
            e.add(corpora[i], corpora[j], *([name] if name else []))
            if plan["early"]:
                e.run_eval()
        e.run_eval()
        for i, c in corpora.items():
            if canon(M.snap(c, False)) != canon(shown[i]):
                violate("changed", "evaluation changed " + paths[i])
        res = [show_eval(e), list(e.names)]
        e.write(target)
        return res
    out = s.do(go)
    s.end()
    if isinstance(out.exc, Violation):
        raise out.exc
    what = "evaluation of %r: %r" % (groups, out)
    hit = bool(s.p.fired)
    if out.kind == "hang":
        violate("hang", what)
    if fail and out.kind == "ok":
        violate("silent", what + " in spite of bad input")
    if not fail and not hit and out.kind != "ok":
        violate("failed", "%s\n%s" % (what, out.tb or ""))
    names = [n or "part%d" % (i + 1) for i, (_, _, n) in enumerate(groups)]
    e = None
    if not fail:
        e = evaluation([compare(aligns[i], aligns[j]) for i, j, _ in groups])
        w.probe("evaluation")
    if out.kind == "ok" and not fail:
        d = near([e, names], out.value)
        if d:
            violate("numbers", what + ": " + d)
    data = fs.get(target)
    if data == old:
        if out.kind == "ok":
            violate("unsaved", what)
    elif fail:
        violate("written", what)
    else:
        check_rows(what, data, rows_of(e, names))
        w.probe("written")
    after = fs.listing()
    for p in sorted(set(before) | set(after)):
        if p != target and before.get(p, 0) != after.get(p, 0):
            if p in before or out.kind != "crash" and not (
                    len(s.p.fired) > 1 or
                    [k for k in w.fault_counts if ":unlink" in k]):
                violate("changed", "%s: %s" % (what, p))
    return {"nt": True, "steps": {"p": marks(s.p)}}


def run_diff(w, plan, paths, aligns):
    "the evaluation that pgc_diff adds"
    if len(paths) != 2:
        raise Discard()
    before = w.fs.listing()
    out, proc = tool(w, "pgc_diff.py", paths + ["-e"], "p", plan["cwd"],
                     plan["faults"], plan["full"])
    fail = plan["bad"] in ("missing", "damaged", "short")
    hit = bool(proc.fired) or plan["full"] is not None
    what = "pgc_diff -e: %r" % out
    read_only(w, before, what)
    if out.kind == "hang":
        violate("hang", what)
    if fail and not loud(out, proc) and out.kind != "crash":
        violate("silent", what)
    if not fail and not hit and loud(out, proc):
        violate("failed", "%s %s\n%s" % (what, proc.stderr.getvalue(),
                                         out.tb or ""))
    if not fail and not loud(out, proc) and out.kind != "crash":
        e = evaluation([compare(aligns[0], aligns[1])])
        text = proc.stdout.getvalue()
        at = text.find("=" * 80 + "\nAlignment only")
        if at < 0:
            violate("printed", what + ": no evaluation")
        check_rows(what, text[at:], rows_of(e, ["part1"]))
    return {"nt": True, "steps": {"p": marks(proc)}}


def read_only(w, before, what):
    if w.fs.listing() != before:
        after = w.fs.listing()
        violate("changed", "%s: %s" % (what, [
            p for p in sorted(set(before) | set(after))
            if before.get(p, 0) != after.get(p, 0)]))


# parallel texts

def pairs_of(doc, tag):
    k = "id" if doc["method"] == "id" else "n"
    out = set()
    for l in doc["links"]:
        a = dict((x, y) for x, y in l)
        if a["from_tag"] == tag == a["to_tag"]:
            out.add((a["from_" + k], a["to_" + k]))
    return out


def run_ptc(w, plan):
    fs = w.fs
    docs = plan["docs"]
    docs = docs[:len(docs) // 2 * 2]
    if not docs:
        raise Discard()
    bad = plan["bad"]
    true, pred, rows = [], [], []
    tag = plan["tag"] or "s"
    total = [0, 0, 0]

    mixed = False
    if bad == "names":
        # the second document the other way
        a, b = docs[0], docs[1]
        to = "n" if b["method"] == "id" else "id"
        b["links"] = [[[k.split("_")[0] + "_" + to, re.sub("[st]", "", v)]
                       if k.endswith(("_id", "_n")) else [k, v]
                       for k, v in l] for l in b["links"]]
        b["method"] = to
        mixed = bool(pairs_of(a, tag) and pairs_of(b, tag))

    def row(c):
        s = scores(dict(zip(COUNTS, c)))
        return c + [div(c[1], c[0]), s["prec"], s["rec"], s["f"]]
    for i in range(0, len(docs), 2):
        for j, lst in ((0, true), (1, pred)):
            path = "/data/texts/%s%d.hitaext" % ("tp"[j], i // 2)
            data = T.doc_xml(docs[i + j], plan["style"])
            if bad == "damaged" and i + j == 1:
                data = data[:plan["at"] * 31 % max(1, len(data.rstrip()) - 1)]
            if not (bad == "missing" and i + j == 1):
                fs.put(path, data)
            lst.append(path)
        a, b = pairs_of(docs[i], tag), pairs_of(docs[i + 1], tag)
        c = [len(a), len(b), len(a & b)]
        total = [x + y for x, y in zip(total, c)]
        rows.append([posixpath.basename(pred[-1])] + row(c))
    rows.append([None] + row(total))
    if bad == "short":
        pred = pred[:-1]
    argv = ["-t"] + true + ["-p"] + pred
    if plan["tag"]:
        argv += ["--tag", plan["tag"]]
    before = fs.listing()
    out, proc = tool(w, "ptc_eval.py", argv, "p", plan["cwd"], plan["faults"],
                     plan["full"])
    what = "ptc_eval %r: %r" % (argv, out)
    read_only(w, before, what)
    if out.kind == "hang":
        violate("hang", what)
    quiet = not out.failed and not T.quiet(proc).strip() and \
        out.kind != "crash"
    if bad in ("missing", "damaged", "short") or mixed:
        if quiet:
            violate("silent", what)
    elif not quiet and not proc.fired and plan["full"] is None:
        violate("failed", "%s %s\n%s" % (what, proc.stderr.getvalue(),
                                         out.tb or ""))
    elif quiet:
        got = []
        for line in proc.stdout.getvalue().splitlines():
            x = line.split()
            if x and x[0].isdigit():
                got.append([x[7] if len(x) > 7 else None] +
                           [float(y) for y in x[:7]])
        d = near(rows, got, "", 0.00501)
        if d:
            violate("printed", "%s: %s" % (what, d))
        w.probe("ptc_eval")
    return {"nt": True, "steps": {"p": marks(proc)}}
