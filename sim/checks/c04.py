# -*- coding: utf-8 -*-
"""
C04 graphbanks are loaded completely and exactly, or not at all
"""
import copy
from lib import *
import model as M

SHRINK = ("damage", "faults", "bank.graphs", "cuts", "want")
SIMPLER = (("style", [M.PLAINSTYLE]), ("api", ["load"]),
           ("world.buf", [4096]))

P = "/data/gb/bank.xml"


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=1, maxgraphs=5, maxnodes=6, maxpairs=0,
                    dirs=["/data/gb"])
    bank = m["banks"][0]
    bank["path"] = P
    if rng.chance(0.25):
        bank["default"] = rng.choice(["unknown", "x & y"])
    ids = [g["id"] for g in bank["graphs"]]
    api = rng.choice(["load", "load", "chunks", "chunks", "file", "sparse",
                      "sparse", "strio"])
    want = rng.subset(ids, 0.6)
    if rng.chance(0.15):
        want.append("nosuch")
    kind = rng.weighted([("none", 10), ("trunc", 3), ("flip", 3), ("cut", 1),
                         ("format", 1), ("gone", 1)])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 17, 64, 256, 8192])},
            "bank": bank, "style": M.gen_style(rng), "api": api,
            "want": want, "faults": shorts(rng),
            "fmt": rng.choice(["graphml", "GraphML", "GRAPHML"]),
            "sparse": rng.chance(0.5),
            "cuts": sorted(rng.below(1 << 14) for _ in range(rng.int(0, 12))),
            "bytewise": rng.chance(0.2),
            "damage": [] if kind == "none" else
            [[kind, rng.below(1 << 20), rng.below(1 << 20)]]}


def faults(rng, plan, base, tier):
    out = []
    if plan["api"] in ("chunks", "strio"):
        return out
    for _ in range(2 if tier == "quick" else 8):
        p = norm(plan)
        p["damage"] = []
        p["faults"] = [place(rng, base["steps"]["p"],
                                 ("err", "err", "intr"))]
        out.append(p)
    return out


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    bank = plan["bank"]
    good = M.bank_file(bank, plan["style"])
    data = good
    fmt = plan["fmt"]
    for d in plan["damage"]:
        if d[0] == "trunc":
            data = data[:d[1] % len(data)]
        elif d[0] == "flip":
            i = d[1] % len(data)
            data = data[:i] + chr(ord(data[i]) ^ (1 << d[2] % 8)) + data[i + 1:]
        elif d[0] == "cut":
            i = d[1] % len(data)
            data = data[:i] + data[i + 1 + d[2] % 60:]
        elif d[0] == "format":
            fmt = "unheardof"
        elif d[0] == "gone":
            data = None
    if data is not None:
        fs.put(P, data)
    else:
        fs.mkdirs("/data/gb")
    api = plan["api"]
    if data is None and api in ("chunks", "strio", "file"):
        raise Discard()
    if fmt == "unheardof" and api in ("chunks", "strio", "file"):
        fmt = "graphml"
    sparse = plan["sparse"] and api != "load" or api == "sparse"
    if sparse and not plan["want"]:
        raise Discard()
    want = None
    if data is not None and fmt != "unheardof":
        want = M.parse_graphml(data, set(plan["want"]) if sparse else None)
        if want is not None and sparse and \
                set(plan["want"]) - set(want):
            want = None
    if want is not None and not plan["damage"]:
        # the independent reader itself is right
        exp = dict((g["id"], M.c_graph(g, bank.get("default")))
                   for g in bank["graphs"]
                   if not sparse or g["id"] in plan["want"])
        if canon(exp) != canon(want):
            raise HarnessError(first_diff(exp, want))
    s = Session(w, "p", "/work", plan["faults"])
    box = {}

    def chunks():
        from daeso.gb.graphml import GraphmlParser
        p = GraphmlParser()
        tab = dict.fromkeys(plan["want"]) if sparse else {}
        cuts = sorted(set(c % (len(data) + 1) for c in plan["cuts"]))
        if plan["bytewise"]:
            cuts = range(len(data))
        parts = [data[a:b] for a, b in zip([0] + cuts, cuts + [len(data)])]
        for x in parts:
            r = p.parse_string(x, tab, sparse=sparse)
            if r is not tab:
                violate("table", "parse_string returns another table")
        p.close()
        return tab

    def afile():
        from daeso.gb.graphml import GraphmlParser
        import cStringIO
        f = cStringIO.StringIO(data) if api == "strio" else open(P)
        tab = dict.fromkeys(plan["want"]) if sparse else {}
        return GraphmlParser().parse_file(f, tab, sparse=sparse)

    def load():
        from daeso.gb.graphbank import GraphBank
        gb = box["gb"] = GraphBank("../data/gb/bank.xml", fmt)
        gb.load()
        return dict((g.id, gb.get_graph(g.id)) for g in gb)

    def load_sparse():
        from daeso.gb.graphbank import SparseGraphBank
        gb = box["gb"] = SparseGraphBank(P, fmt)

        class Client(object):
            pass
        box["clients"] = []
        from daeso.pair import Pair
        for i in plan["want"]:
            c = Client()
            c._graphs = Pair(gb.get_graph_stub(i), gb.get_graph_stub(i + "\0"))
            box["clients"].append(c)
        # only one side is aligned here
        for c in box["clients"]:
            del gb._id2graph[c._graphs.target.id]
            c._graphs.source.add_client(c)
        gb.load()
        for c in box["clients"]:
            if c._graphs.source is not gb.get_graph(c._graphs.source.id):
                violate("stub", "graph %s not replaced" % c._graphs.source.id)
        return dict((g.id, g) for g in gb)

    fn = {"chunks": chunks, "strio": afile, "file": afile, "load": load,
          "sparse": load_sparse}[api]
    out = s.do(fn)
    steps = marks(s.p)
    errs = [f for f in s.p.fired if f != "short"]
    if out.kind == "ok":
        if errs:
            violate("silent", "loading met %s, yet succeeded" % errs)
        if want is None:
            ok = data is not None and sane(data)
            if not ok:
                violate("accepted", "%s was accepted" % plan["damage"])
        else:
            got = s.must("inspect", lambda: dict(
                (k, M.s_graph(v)) for k, v in out.value.items()))
            if canon(got) != canon(want):
                violate("differs", first_diff(want, got))
            if "gb" in box and s.must("len", lambda: len(box["gb"])) != \
                    len(want):
                violate("len", "%d graphs" % len(want))
    elif out.kind == "exc":
        if want is not None and not errs:
            violate("rejected", "%r\n%s" % (out, out.tb))
        if api == "load" and "gb" in box:
            n = s.must("len", lambda: len(box["gb"]))
            if n:
                violate("half", "%d graphs in spite of %r" % (n, out))
    else:
        violate("stop", repr(out))
    # a graphbank that could not be loaded can be loaded once it is repaired
    if api == "load" and out.kind == "exc" and fmt != "unheardof" and \
            "gb" in box:
        s.p.faults = []
        fs.put(P, good)
        gb = box["gb"]
        s.must("load again", gb.load)
        got = s.must("inspect", lambda: dict(
            (g.id, M.s_graph(gb.get_graph(g.id))) for g in gb))
        exp = dict((g["id"], M.c_graph(g, bank.get("default")))
                   for g in bank["graphs"])
        if canon(got) != canon(exp):
            violate("retry", first_diff(exp, got))
    s.end()
    return {"steps": {"p": steps}, "nt": True}


def sane(data):
    "well-formed, so the documentation leaves the reaction open"
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
    except Exception:
        return False
    # edges to nodes that are not there, other vocabulary: not checked
    try:
        names = set()
        for e in root.getiterator():
            t = M._local(e.tag)
            if t not in ("graphml", "key", "graph", "node", "edge", "data",
                         "default"):
                return True
        for g in root:
            if M._local(g.tag) != "graph":
                continue
            ids = [n.get("id") for n in g if M._local(n.tag) == "node"]
            if len(set(ids)) != len(ids):
                return True
            for e in g:
                if M._local(e.tag) == "edge" and (
                        e.get("source") not in ids or
                        e.get("target") not in ids):
                    return True
        for k in root:
            if M._local(k.tag) == "key" and (
                    k.get("for", "all") not in ("graph", "node", "edge",
                                                "all")):
                return True
        return False
    except Exception:
        return True
