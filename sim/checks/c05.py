# -*- coding: utf-8 -*-
"""
C05 all ways of loading a corpus agree
"""
import copy
import posixpath
from lib import *
import model as M

SHRINK = ("model.pairs", "model.pairs.*.align", "model.banks.*.graphs",
          "links", "faults")
SIMPLER = (("style", [M.PLAINSTYLE]), ("bstyle", [M.PLAINSTYLE]),
           ("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("legacy", [False]), ("how", ["name"]), ("world.buf", [4096]))

CORP = "/data/pgc/c.pgc"


def gen(rng, tier):
    m = M.gen_model(rng, maxpairs=7, minpairs=1, maxgraphs=rng.int(1, 5),
                    formats=["graphml", "graphml", "graphml", "alpino"])
    # pairs that share graphs
    for _ in range(rng.below(4)):
        if m["pairs"]:
            p = copy.deepcopy(rng.choice(m["pairs"]))
            if rng.chance(0.5):
                p["b"].reverse()
                p["g"].reverse()
                p["align"] = sorted([b, a, r] for a, b, r in p["align"])
            m["pairs"].insert(rng.below(len(m["pairs"]) + 1), p)
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 512, 4096])},
            "model": m, "style": M.gen_style(rng), "bstyle": M.gen_style(rng),
            "cwd": rng.choice(["/data/pgc", "/work", "/data"]),
            "legacy": rng.choice(["graphml", "alpino"])
            if rng.chance(0.2) else False, "drop": rng.below(1 << 8),
            "how": rng.choice(["name", "name", "file", "init", "rel", "link"]),
            "relax": rng.chance(0.3), "order": rng.shuffle([1, 2, 3]),
            "same": rng.chance(0.5), "faults": shorts(rng)}


def doc(plan):
    m = plan["model"]
    e = M.corpus_elem(m, CORP, plan["style"])
    if plan["legacy"]:
        for k in e[3]:
            if k[0] == "graphbanks":
                # the format of the files that say nothing else
                k[1].append(["format", plan["legacy"]])
                for n, f in enumerate(k[3]):
                    if ["format", plan["legacy"]] in f[1] and \
                            plan["drop"] >> n % 8 & 1:
                        f[1] = [a for a in f[1] if a[0] != "format"]
    return M.Ser(plan["style"]).doc(e)


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    fs.mkdirs("/data/pgc")
    M.put_banks(fs, m, plan["bstyle"])
    fs.put(CORP, doc(plan))
    fs.symlink("/data/pgc", "/ln")
    name = CORP
    if plan["how"] == "rel":
        name = posixpath.relpath(CORP, plan["cwd"])
    elif plan["how"] == "link":
        name = "/ln/c.pgc"
    paths = [b["path"] for b in m["banks"]]
    opened = {}

    def on_open(proc, kind, path):
        node = fs.lookup(path, True, proc.cwd)
        for i, p in enumerate(paths):
            if node is not None and node is fs.lookup(p):
                opened[i] = opened.get(i, 0) + 1

    snaps = {}
    corpora = {}
    sess = None
    sessions = []
    for mode in plan["order"]:
        if sess is None or not plan["same"]:
            sess = Session(w, "load%d" % mode, plan["cwd"], plan["faults"])
            sess.p.hooks.append(("open_r", on_open))
            sessions.append(sess)
        opened.clear()

        def load():
            from daeso.pgc import corpus as pc
            flag = {1: pc.LOAD_ALL, 2: pc.LOAD_SPARSE, 3: pc.LOAD_NONE}[mode]
            if plan["how"] == "init":
                return pc.ParallelGraphCorpus(inf=name, graph_loading=flag)
            c = pc.ParallelGraphCorpus()
            if plan["how"] == "file":
                f = open(name)
                c.read(f, graph_loading=flag, relax_gb_paths=plan["relax"])
                f.close()
            else:
                c.read(name, graph_loading=flag, relax_gb_paths=plan["relax"])
            return c
        c = corpora[mode] = sess.must("load", load)
        for i in sorted(opened):
            if mode == 3:
                violate("opened", "graphbank %s opened while loading no graphs"
                        % paths[i])
            if opened[i] > 1:
                violate("opened", "graphbank %s opened %d times"
                        % (paths[i], opened[i]))
        opened.clear()
        got = snaps[mode] = sess.must("inspect", M.snap, c, mode != 3)
        want = M.expect(m, mode != 3)
        if canon(got) != canon(want):
            violate("differs", "mode %d: %s" % (mode, first_diff(want, got)))
        if opened:
            violate("opened", "graphbanks opened after loading: %r" % opened)
        sess.must("sharing", sharing, c, m, mode)
    a, b = snaps[1], snaps[2]
    if canon(a) != canon(b):
        violate("modes", first_diff(a, b))
    if plan["same"]:
        # the corpora are equal, graphs loaded or not
        for i, j in ((1, 2), (2, 1), (2, 3), (3, 1)):
            if not sess.must("compare", lambda: corpora[i] == corpora[j]):
                violate("equal", "mode %d and mode %d differ" % (i, j))
    for s in sessions:
        s.end()
    return {"nt": len(m["pairs"]) > 1}


def sharing(c, m, mode):
    "one object per graph and per graphbank"
    graphs = {}
    banks = {}
    used = {}
    for p, pm in zip(c, m["pairs"]):
        for k in (0, 1):
            g = list(p.get_graphs())[k]
            b = list(p.get_banks())[k]
            key = (pm["b"][k], pm["g"][k])
            if graphs.setdefault(key, g) is not g:
                violate("shared", "two objects for graph %s of %s" % (
                    key[1], m["banks"][key[0]]["path"]))
            if banks.setdefault(key[0], b) is not b:
                violate("shared", "two objects for graphbank %s"
                        % m["banks"][key[0]]["path"])
            used.setdefault(key[0], set()).add(key[1])
            if b.get_graph(key[1]) is not g:
                violate("shared", "graph %s is not the one of its graphbank"
                        % key[1])
            one = (p.get_source_graph, p.get_target_graph)[k]()
            bank = (p.get_source_bank, p.get_target_bank)[k]()
            if one is not g or bank is not b:
                violate("side", "wrong side")
    n = len(set(id(x) for x in graphs.values()))
    if n != len(graphs):
        violate("shared", "one object for different graphs")
    n = len(set(id(x) for x in banks.values()))
    if n != len(banks):
        violate("shared", "one object for different graphbanks")
    for i, b in banks.items():
        have = sorted(g.id for g in b)
        if mode == 1:
            want = sorted(g["id"] for g in m["banks"][i]["graphs"])
        else:
            want = sorted(used[i])
        if have != want:
            violate("content", "graphbank %s has graphs %s, not %s"
                    % (m["banks"][i]["path"], have, want))
        if len(b) != len(want):
            violate("content", "len %d" % len(b))
