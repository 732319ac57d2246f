# -*- coding: utf-8 -*-
"""
C06 graphs and graphbanks live exactly as long as they are in use
"""
import copy
import sys
from lib import *
import gcsim
import model as M
import edits as E

SHRINK = ("ops", "model.pairs", "model.pairs.*.align", "model.banks.*.graphs",
          "gc.at")
SIMPLER = (("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("world.buf", [4096]), ("gc.every", [False]))

CORP = "/data/pgc/c.pgc"
BAD = "/data/pgc/bad.pgc"
BORN = []       # not in a closure, where it would count as referred to


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=2, maxgraphs=4, maxpairs=5, minpairs=1,
                    maxnodes=4)
    for _ in range(rng.below(3)):
        if m["pairs"]:
            p = copy.deepcopy(rng.choice(m["pairs"]))
            m["pairs"].append(p)
    ops = []
    for _ in range(rng.int(2, 14)):
        k = rng.weighted([("load", 2), ("take", 4), ("takeg", 3), ("takeb", 3),
                          ("dropc", 4), ("droph", 3), ("delpair", 4),
                          ("copy", 2), ("slice", 2), ("purge", 1), ("add", 1),
                          ("gc", 5), ("align", 2), ("save", 1), ("loadbank", 1),
                          ("fromiter", 1), ("copyc", 1), ("list", 4),
                          ("fail", 2), ("pop", 1), ("clear", 1), ("show", 1),
                          ("pgcstats", 1)])
        op = [k, rng.below(50), rng.below(50)]
        if k == "load":
            op.append(rng.choice([1, 2, 2, 2, 3]))
        ops.append(op)
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 2048])},
            "model": m, "ops": [["load", 0, 0, rng.choice([1, 2, 2, 2, 3])]]
            + ops,
            "gc": {"at": sorted(rng.sample(range(1, 120), rng.int(0, 12))),
                   "every": rng.chance(0.1)}}


class Held(object):
    "something the user holds"

    def __init__(self, kind, obj, what):
        self.kind = kind        # corpus, pair, graph, bank
        self.obj = obj
        self.what = what        # its description


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    fs.mkdirs("/data/pgc")
    M.put_banks(fs, m)
    fs.put(CORP, M.corpus_xml(m, CORP))
    s = Session(w, "p", "/work")
    fs.put(BAD, M.corpus_xml(m, BAD)[:-20])
    held = []
    born = s.must("watch", watch)
    at = plan["gc"]["at"]
    count = [0, 0]

    def roots(frames):
        r = [h.obj for h in held]
        f = sys._getframe(1) if frames else None
        while f is not None:
            if f.f_code.co_filename.startswith(REPO) or \
                    "/networkx/" in f.f_code.co_filename or \
                    f.f_code.co_name in ("op_work",):
                r.append(dict(f.f_locals))
            f = f.f_back
        return r

    def on_call(proc, kind, path):
        count[0] += 1
        if count[0] in at or plan["gc"]["every"]:
            count[1] += 1
            w.probe("gc in a system call")
            gcsim.collect(roots(True))
    s.p.hooks.append(("*", on_call))

    def op_work(op):
        return apply(op, held, m, fs)

    for op in plan["ops"]:
        if op[0] == "gc":
            n = s.must("gc", lambda: gcsim.collect(roots(False)))
            w.probe("collected", n)
            s.must("released", released, held, m)
            s.must("leaks", leaks, held, born)
        else:
            s.must(op[0], op_work, op)
        s.must("check after " + op[0], check, held, m)
    s.must("gc", lambda: gcsim.collect(roots(False)))
    s.must("check", check, held, m)
    s.must("released", released, held, m)
    s.must("leaks", leaks, held, born)
    # giving up everything but the graphbanks
    for h in list(held):
        if h.kind != "bank":
            held.remove(h)
    h = None
    s.must("gc", lambda: gcsim.collect(roots(False)))
    s.must("released", released, held, m)
    s.must("leaks", leaks, held, born)
    del held[:]
    s.must("gc", lambda: gcsim.collect(roots(False)))
    s.must("leaks", leaks, held, born)
    s.end()
    return {"nt": True}


def watch():
    "keep track of every graphbank and graph that is made"
    from daeso.gb.graphbank import GraphBank
    from daeso.gb.graphstub import GraphStub
    from daeso.graph.daesograph import DaesoGraph
    del BORN[:]

    def wrap(cls):
        orig = cls.__dict__["__init__"]

        def init(self, *args, **kw):
            BORN.append(self)
            return orig(self, *args, **kw)
        cls.__init__ = init
    for cls in (GraphBank, GraphStub, DaesoGraph):
        wrap(cls)
    return BORN


def leaks(held, born):
    """
    no graphbank or graph lives on that is not in use
    """
    seen = gcsim.reachable([h.obj for h in held])
    use = {}
    for h in held:
        if h.kind in ("corpus", "pair"):
            for p in (h.obj if h.kind == "corpus" else [h.obj]):
                for x in list(p.get_graphs()) + list(p.get_banks()):
                    use[id(x)] = x
        else:
            use[id(h.obj)] = h.obj
    for b in list(use.values()):
        if hasattr(b, "get_file_path") and type(b).__name__ == "GraphBank":
            for g in b:     # a completely loaded graphbank keeps its graphs
                use[id(g)] = g
    todo = list(use.values())
    while todo:             # a stub of a graph knows the pairs it serves
        for p in getattr(todo.pop(), "clients", None) or ():
            for x in list(p.get_graphs()) + list(p.get_banks()):
                if id(x) not in use:
                    use[id(x)] = x
                    todo.append(x)
    for x in born:
        if seen.containsKey(x) and id(x) not in use:
            violate("leak", "%s %s is still held after nothing uses it" % (
                type(x).__name__, getattr(x, "id", None) or
                x.get_file_path()))


def pick(held, kind, n):
    c = [h for h in held if h.kind == kind]
    return c[n % len(c)] if c else None


def apply(op, held, m, fs):
    from daeso.pgc.corpus import ParallelGraphCorpus
    k = op[0]
    if k == "load":
        if len([h for h in held if h.kind == "corpus"]) > 3:
            return
        c = ParallelGraphCorpus()
        c.read(CORP, graph_loading=op[3])
        held.append(Held("corpus", c, {
            "pairs": [dict(p, mode=op[3]) for p in m["pairs"]]}))
        return
    if k == "loadbank":
        from daeso.gb.graphbank import GraphBank
        i = op[1] % len(m["banks"])
        b = GraphBank(m["banks"][i]["path"], m["banks"][i]["format"])
        b.load()
        held.append(Held("bank", b, {"i": i, "all": True}))
        return
    h = pick(held, "corpus", op[1])
    if k in ("take", "takeg", "takeb", "delpair", "slice", "dropc", "save",
             "add", "purge", "align", "fromiter", "copyc", "list", "fail",
             "pop", "clear", "show") and h is None:
        return
    if k in ("take", "takeg", "takeb", "delpair", "align", "pop") and \
            not h.obj:
        return
    if k in ("take", "takeg", "takeb", "align", "delpair"):
        n = op[2] % len(h.obj)
        pm = h.what["pairs"][n]
    if k == "take":
        held.append(Held("pair", h.obj[n], pm))
    elif k == "takeg":
        side = op[1] % 2
        g = list(h.obj[n].get_graphs())[side]
        held.append(Held("graph", g, {"b": pm["b"][side], "g": pm["g"][side],
                                      "mode": pm["mode"]}))
    elif k == "takeb":
        side = op[1] % 2
        b = list(h.obj[n].get_banks())[side]
        held.append(Held("bank", b, {"i": pm["b"][side],
                                     "all": pm["mode"] == 1,
                                     "mode": pm["mode"]}))
    elif k == "delpair":
        del h.obj[n]
        del h.what["pairs"][n]
    elif k == "align":
        p = h.obj[n]
        for nodes, rel in p.alignments():
            p.del_align(nodes)
            p.add_align(nodes, rel)
    elif k == "slice":
        i, j = op[2] % 4, op[2] % 7
        held.append(Held("corpus", h.obj[i:j],
                         {"pairs": h.what["pairs"][i:j]}))
    elif k == "fromiter":
        held.append(Held("corpus", ParallelGraphCorpus(
            iter(h.obj), h.obj.get_relations()),
            {"pairs": list(h.what["pairs"])}))
    elif k == "copyc":
        held.append(Held("corpus", copy.deepcopy(h.obj),
                         {"pairs": list(h.what["pairs"])}))
    elif k == "copy":
        h = pick(held, "pair", op[1])
        if h:
            held.append(Held("pair", copy.deepcopy(h.obj), h.what))
    elif k == "add":
        h2 = pick(held, "corpus", op[2])
        held.append(Held("corpus", h.obj + h2.obj, {
            "pairs": h.what["pairs"] + h2.what["pairs"]}))
    elif k == "purge":
        h.obj.purge()
    elif k == "dropc":
        held.remove(h)
    elif k == "list":
        want = set()
        for p in h.obj:
            want.update([id(b) for b in p.get_banks()])
        got = set([id(b) for b in h.obj._graphbanks()])
        if got != want:
            violate("list", "%d graphbanks listed, not %d"
                    % (len(got), len(want)))
    elif k == "fail":
        # a corpus keeps what it has when it cannot be read
        try:
            h.obj.read(BAD, graph_loading=op[2] % 3 + 1)
        except Exception:
            sys.exc_clear()
        else:
            violate("accepted", "half a corpus")
    elif k == "pop":
        n = op[2] % len(h.obj)
        h.obj.pop(n)
        del h.what["pairs"][n]
    elif k == "clear":
        h.obj.clear()
        del h.what["pairs"][:]
    elif k == "show":
        str(h.obj)
        repr(h.obj)
        for p in h.obj:
            str(p)
            if not p == copy.deepcopy(p):
                violate("copy", "not equal to its copy")
    elif k == "pgcstats":
        from daeso.pgc.pgcstats import pgc_stats
        try:
            pgc_stats([CORP], with_unaligned_roots=True,
                      with_unaligned_graphs=True)
        except AssertionError:      # relations it does not know
            sys.exc_clear()
    elif k == "droph":
        c = [x for x in held if x.kind != "corpus"]
        if c:
            held.remove(c[op[1] % len(c)])
    elif k == "save":
        h.obj.write("/work/out.pgc")
        got = M.parse_corpus(fs.get("/work/out.pgc"), "/work/out.pgc")
        got = [[p["g"], p["b"]] for p in got["pairs"]]
        want = [[p["g"], [[m["banks"][i]["path"], m["banks"][i]["format"]]
                          for i in p["b"]]] for p in h.what["pairs"]]
        if canon(got) != canon(want):
            violate("saved", first_diff(want, got))


def check(held, m):
    for h in held:
        if h.kind == "corpus":
            if len(h.obj) != len(h.what["pairs"]):
                violate("corpus", "%d pairs, not %d"
                        % (len(h.obj), len(h.what["pairs"])))
            for p, pm in zip(h.obj, h.what["pairs"]):
                check_pair(p, pm, m)
        elif h.kind == "pair":
            check_pair(h.obj, h.what, m)
        elif h.kind == "graph":
            check_graph(h.obj, m, h.what["b"], h.what["g"], h.what["mode"])
        else:
            if h.obj.get_file_path() != m["banks"][h.what["i"]]["path"]:
                violate("bank", "wrong graphbank")
            if h.what["all"] and len(h.obj) != \
                    len(m["banks"][h.what["i"]]["graphs"]):
                violate("lost", "graphs of a completely loaded graphbank "
                        "are gone")
            for g in h.obj:
                if g is None:
                    violate("lost", "a dead graph in a graphbank")


def check_pair(p, pm, m):
    for side in (0, 1):
        b = list(p.get_banks())[side]
        g = list(p.get_graphs())[side]
        if b is None or b.get_file_path() != m["banks"][pm["b"][side]]["path"]:
            violate("lost", "graphbank of a pair: %r" % (b,))
        check_graph(g, m, pm["b"][side], pm["g"][side], pm["mode"])
    al = sorted([n.source, n.target, r] for n, r in p.alignments())
    if al != sorted(pm["align"]):
        violate("align", "%r" % al)


def check_graph(g, m, bi, gid, mode):
    if g is None or g.id != gid:
        violate("lost", "graph %s is %r" % (gid, g))
    if mode == 3:
        return
    want = M.c_graph(M.bank_graph(m["banks"][bi], gid),
                     m["banks"][bi].get("default"))
    got = M.s_graph(g)
    if canon(got) != canon(want):
        violate("graph", first_diff(want, got))


def released(held, m):
    """
    what a sparsely loaded graphbank still offers after a collection is in use
    """
    use = {}
    graphs = {}
    banks = {}

    def pair(p, pm):
        for side in (0, 1):
            g = list(p.get_graphs())[side]
            b = list(p.get_banks())[side]
            graphs[id(g)] = g
            banks[id(b)] = (b, pm)
    for h in held:
        if h.kind == "corpus":
            for p, pm in zip(h.obj, h.what["pairs"]):
                pair(p, pm)
        elif h.kind == "pair":
            pair(h.obj, h.what)
        elif h.kind == "graph":
            graphs[id(h.obj)] = h.obj
        else:
            banks[id(h.obj)] = (h.obj, h.what)
    for b, what in banks.values():
        if what.get("mode") != 2:
            continue
        for g in b:
            if id(g) not in graphs:
                violate("leak", "graph %s is still held after nothing refers "
                        "to it" % g.id)
        # and it can be asked for what is in use
        for g in b:
            if b.get_graph(g.id) is not g:
                violate("lost", "graph %s of its graphbank" % g.id)
    for h in held:
        if h.kind == "pair" and h.what["mode"] == 2:
            gs = list(h.obj.get_graphs())
            for side in (0, 1):
                b = list(h.obj.get_banks())[side]
                try:
                    g = b.get_graph(gs[side].id)
                except KeyError:
                    g = None
                # after a purge another graphbank object may be used
                if g is None and not h.what.get("purged"):
                    w = [x for x in banks.values()]
                    if not any(True for x, _ in w
                               if x is not b and x == b):
                        violate("lost", "graph %s not in its graphbank"
                                % gs[side].id)
