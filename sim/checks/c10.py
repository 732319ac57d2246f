# -*- coding: utf-8 -*-
"""
C10 splitting and joining lose nothing, and failures are seen
"""
import copy
import posixpath
import re
from lib import *
import model as M

SHRINK = ("faults", "model.pairs", "model.pairs.*.align",
          "model.banks.*.graphs", "extra")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("world.buf", [4096]),
           ("bad", [None]), ("again", [None]))

DIRS = ["/data/pgc", "/data/pgc/x y", "/work", "/srv"]


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=3, maxgraphs=2, minpairs=0,
                    maxpairs=rng.choice([3, 6, 13]), maxnodes=3,
                    dirs=["/data/gb", "/data/pgc", "/srv/deep/er"])
    d = rng.choice(DIRS)
    n = len(m["pairs"])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([32, 128, 1024, 8192])},
            "model": m, "style": M.gen_style(rng), "dir": d,
            "name": rng.choice(["c.pgc", "corp.us.pgc", "a-b.xml", "noext"]),
            "cwd": rng.choice(DIRS), "rel": rng.chance(0.4),
            "opt": rng.choice([None, ["-s", rng.int(1, n + 2)],
                               ["-s", rng.int(1, 3)], ["--size", 1],
                               ["-p", rng.int(1, n + 2)], ["--parts", 3]]),
            "format": rng.chance(0.4), "verbose": rng.chance(0.2),
            "jcwd": rng.choice(DIRS),
            "how": rng.choice(["glob", "list", "shuffled", "globs", "rel"]),
            "again": rng.choice([None, None, 1, 2]),
            "bad": rng.weighted([(None, 6), ("missing", 1), ("pattern", 1),
                                 ("damaged", 1), ("relations", 1),
                                 ("meta", 1), ("gone bank", 1)]),
            "badat": rng.below(64), "full": None,
            "seed": rng.below(1 << 16), "faults": []}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(5 if tier == "quick" else 20):
        p = norm(plan)
        who = rng.choice(sorted(base["steps"]))
        k = rng.weighted([("crash", 4), ("err", 5), ("short", 2), ("full", 2),
                          ("two", 1), ("intr", 1)])
        if k == "full":
            if rng.chance(0.4):
                p["quota"] = rng.below(1500)
            else:
                p["full"] = rng.below(rng.choice([20, 300, 3000]))
        elif k == "two":
            p["faults"] = [[who, place(rng, base["steps"][who], ("err",))],
                           [who, place(rng, base["steps"][who])]]
        else:
            p["faults"] = [[who, place(rng, base["steps"][who], (k,))]]
        out.append(p)
    return out


def parse(data, path):
    got = M.parse_corpus(data or "", path)
    if got is not None:
        got.pop("entries")
    return got


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    for d in DIRS:
        fs.mkdirs(d)
    M.put_banks(fs, m)
    src = plan["dir"] + "/" + plan["name"]
    fs.put(src, M.corpus_xml(m, src, plan["style"]))
    steps = {}
    seen = set()

    def faults_of(who):
        return [f for x, f in plan["faults"] if x == who]

    # ---- split
    parts = split(plan, w, src, m, "split", faults_of, steps)
    if plan["again"] and parts:
        # split one of the parts once more; its own file is left out later
        k = sorted(parts)[plan["badat"] % len(parts)]
        pm = dict(m, pairs=parts[k])
        sub = split(dict(plan, opt=["-s", plan["again"]]), w, k, pm, "split2",
                    faults_of, steps)
        # the numbers start anew in a part, after the name of the part
        parts.pop(k)
        parts.update(sub)
    if not parts:
        return {"nt": False, "steps": steps}
    keep = sorted(parts)
    for p in fs.files():
        if p.startswith(plan["dir"] + "/") and p not in parts and p != src \
                and p not in [b["path"] for b in m["banks"]] \
                and not p.endswith(".tmp"):
            fs.unlink(p)
    # ---- join
    rng = Rng("join", plan["seed"])
    cwd = plan["jcwd"]
    root = posixpath.splitext(src)[0]
    ext = posixpath.splitext(src)[1]
    if plan["how"] == "glob":
        args = [root + "_*[0-9]" + ext]
    elif plan["how"] == "globs":
        args = [root + "_0*[0-9]" + ext]
    elif plan["how"] == "rel":
        args = [posixpath.relpath(root + "_*[0-9]" + ext, cwd)]
    else:
        args = list(keep)
        if plan["how"] == "shuffled":
            rng.shuffle(args)
    pairs = [p for k in keep for p in parts[k]]
    meta = m["meta"]
    bad = plan["bad"]
    expect_fail = False
    k = keep[plan["badat"] % len(keep)]
    if bad == "missing":
        args.insert(plan["badat"] % (len(args) + 1), cwd + "/no such.pgc")
        expect_fail = True
    elif bad == "pattern":
        args.append("/data/pgc/zz*.pgc")
        expect_fail = True
    elif bad == "damaged":
        data = fs.get(k)
        fs.put(k, data[:plan["badat"] * 37 % max(1, len(data.rstrip()) - 1)])
        expect_fail = True
    elif bad == "relations" and len(keep) > 1:
        mm = dict(m, pairs=parts[k], relations=m["relations"] + ["zzz"])
        fs.put(k, M.corpus_xml(mm, k))
        expect_fail = True
    elif bad == "meta" and len(keep) > 1:
        other = ["corpus_meta_data", [], "other", [], ""]
        fs.put(k, M.corpus_xml(dict(m, pairs=parts[k], meta=other), k))
        if k == keep[0]:
            meta = other
    elif bad == "gone bank":
        used = set(i for p in pairs for i in p["b"])
        i = sorted(used)[plan["badat"] % len(used)]
        fs.unlink(m["banks"][i]["path"])
        expect_fail = True
    want = M.expect(dict(m, pairs=pairs, meta=meta), False)
    before = fs.listing()
    argv = (["-f"] if plan["format"] else []) + \
        (["-V"] if plan["verbose"] else []) + args
    out, proc = tool(w, "pgc_join.py", argv, "join", cwd, faults_of("join"),
                     stdout_full=plan["full"])
    steps["join"] = marks(proc)
    text = proc.stdout.getvalue()
    for p, x in sorted(fs.listing().items()):
        if p not in before and not p.endswith(".tmp") or \
                before.get(p, x) != x:
            violate("changed", "joining changed %s" % p)
    if out.kind == "hang":
        violate("hang", repr(out))
    if expect_fail:
        if out.kind == "ok" or (out.kind == "exit" and not out.failed):
            violate("silent", "joined in spite of %s: %r" % (bad, out))
        if parse(text, cwd + "/j") is not None:
            violate("output", "a corpus was written in spite of %s" % bad)
        return {"nt": True, "steps": steps}
    if out.kind == "crash":
        pass
    elif not out.failed:
        if proc.stderr.getvalue().strip() and proc.fired and \
                parse(text, cwd + "/j") is None:
            pass
        else:
            got = parse(text, cwd + "/j")
            if got is None:
                violate("silent", "%r without a corpus: %s"
                        % (out, brief(text, 200)))
            if canon(got) != canon(want):
                violate("joined", first_diff(want, got))
            e = [x[1] for x in M.parse_corpus(text, cwd + "/j")["entries"]]
            if len(set(e)) != len(e):
                violate("twice", "a graphbank is listed twice: %r" % e)
            # it can be loaded in full from where it was made
            j = cwd + "/joined.out"
            fs.put(j, text)
            s = Session(w, "load", "/")

            def load():
                from daeso.pgc.corpus import ParallelGraphCorpus
                c = ParallelGraphCorpus()
                c.read(j)
                return c
            c = s.must("load", load)
            got = s.must("inspect", M.snap, c)
            full = M.expect(dict(m, pairs=pairs, meta=meta))
            if canon(got) != canon(full):
                violate("loaded", first_diff(full, got))
            s.end()
            fs.unlink(j)
    elif not proc.fired and plan["full"] is None:
        violate("failed", "%r %s" % (out, proc.stderr.getvalue()))
    return {"nt": len(parts) > 1, "steps": steps}


def split(plan, w, src, m, who, faults_of, steps):
    "run pgc_split, with faults and then without; -> {path: pairs}"
    fs = w.fs
    n = len(m["pairs"])
    opt = plan["opt"]
    cwd = plan["cwd"]
    name = posixpath.relpath(src, cwd) if plan["rel"] else src
    argv = ([str(x) for x in opt] if opt else []) + \
        (["-f"] if plan["format"] else []) + \
        (["-V"] if plan["verbose"] else []) + [name]
    before = fs.listing()
    w.quota = plan.get("quota")
    out, proc = tool(w, "pgc_split.py", argv, who, cwd, faults_of(who))
    w.quota = None
    steps[who] = marks(proc)
    for attempt in (0, 1):
        got = {}
        temp = []
        root, ext = posixpath.splitext(src)
        for p, x in sorted(fs.listing().items()):
            if p in before:
                if before[p] != x:
                    violate("changed", "splitting changed %s" % p)
            elif not re.match(re.escape(root) + "_[0-9]+-[0-9]+" +
                              re.escape(ext) + "$", p):
                temp.append(p)      # of a save that was interrupted
            else:
                c = parse(fs.get(p), p)
                if c is None:
                    violate("damaged", "%s is not a corpus after %r"
                            % (p, out))
                got[p] = c
        parts = spec(src, m, opt, got, not out.failed and out.kind != "crash"
                     and not (proc.fired and loud(out, proc)))
        if attempt:
            if out.failed:
                violate("failed", "%r %s" % (out, proc.stderr.getvalue()))
            return parts
        if not (proc.fired or plan.get("quota") is not None):
            if out.failed:
                violate("failed", "%r %s" % (out, proc.stderr.getvalue()))
            if temp:
                violate("leftover", repr(temp))
            return parts
        for p in temp:
            fs.unlink(p)
        # once more, now that nothing is in the way
        out, proc = tool(w, "pgc_split.py", argv, who + "+", cwd)


def spec(src, m, opt, got, complete):
    "check the parts; -> {path: pairs}"
    n = len(m["pairs"])
    root, ext = posixpath.splitext(src)
    res = {}
    spans = []
    for p in sorted(got):
        body = p[len(root) + 1:len(p) - len(ext)]
        i, j = [int(x) for x in body.split("-")]
        if not 1 <= i <= j <= n:
            violate("name", "%s of %d pairs" % (p, n))
        pairs = m["pairs"][i - 1:j]
        want = M.expect(dict(m, pairs=pairs), False)
        if canon(got[p]) != canon(want):
            violate("part", "%s: %s" % (p, first_diff(want, got[p])))
        if opt and opt[0] in ("-s", "--size"):
            if len(pairs) > opt[1]:
                violate("size", "%s has %d pairs, %d asked for"
                        % (p, len(pairs), opt[1]))
        spans.append((i, j))
        res[p] = pairs
    at = 0
    for i, j in spans:
        if i <= at:
            violate("overlap", repr(spans))
        if complete and i != at + 1:
            violate("incomplete", "parts %r of %d pairs" % (spans, n))
        at = j
    if complete:
        if at != n:
            violate("incomplete", "parts %r of %d pairs" % (spans, n))
        limit = opt[1] if opt and opt[0] in ("-p", "--parts") else \
            None if opt else 2
        if limit is not None and len(spans) > limit:
            violate("parts", "%d parts, %d asked for" % (len(spans), limit))
        sizes = [j - i + 1 for i, j in spans]
        if sizes and len(set(sizes[:-1] + [max(sizes)])) > 1:
            violate("size", "parts of %r pairs" % sizes)
    return res
