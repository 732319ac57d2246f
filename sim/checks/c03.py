# -*- coding: utf-8 -*-
"""
C03 a corpus is read completely or not at all
"""
import copy
from lib import *
import model as M

SHRINK = ("damage", "faults", "model.pairs", "model.pairs.*.align",
          "model.banks.*.graphs", "model.meta.3", "prior.pairs")
SIMPLER = (("style", [M.PLAINSTYLE]), ("bstyle", [M.PLAINSTYLE]),
           ("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("prior", [None]), ("how", ["read"]), ("mode", [3, 2]),
           ("world.buf", [4096]))

P = "/data/in.pgc"


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=2, maxgraphs=3, maxpairs=4, maxnodes=4,
                    dirs=["/data", "/data/gb", "/srv/c"], minpairs=1)
    prior = None
    if rng.chance(0.6):
        prior = copy.deepcopy(m)
        prior["pairs"] = prior["pairs"][:rng.below(3)]
        prior["meta"] = ["corpus_meta_data", [["v", "prior"]], "p", [], ""]
    kind = rng.weighted([("none", 2), ("trunc", 4), ("flip", 4), ("delattr", 3),
                         ("badref", 2), ("badgraph", 3), ("dupid", 2),
                         ("nobank", 2), ("bank", 5), ("format", 1),
                         ("tag", 1), ("cut", 1), ("denied", 1)])
    d = [[kind, rng.below(1 << 20), rng.below(1 << 20)]]
    if kind == "none":
        d = []
    elif kind == "bank":
        d = [["bank", rng.below(8), rng.choice(["trunc", "flip", "dropgraph",
                                                "empty", "dupnode"]),
              rng.below(1 << 20), rng.below(8)]]
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 1024, 8192])},
            "model": m, "prior": prior, "style": M.gen_style(rng),
            "bstyle": M.gen_style(rng), "damage": d, "faults": [],
            "mode": rng.choice([1, 2, 2, 3]),
            "how": rng.choice(["read", "read", "file", "init"])}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(3 if tier == "quick" else 16):
        p = norm(plan)
        if rng.chance(0.7):
            p["damage"] = []
        st = base["steps"]["p"]
        if rng.chance(0.2):
            p["faults"] = shorts(rng, 1)
        else:
            p["faults"] = [place(rng, st, ("err", "err", "intr"))]
        out.append(p)
    return out


def damage_elem(root, d):
    "one structural damage to the document, in place"
    kind, a, b = d
    found = {}

    def walk(e):
        found.setdefault(e[0], []).append(e)
        if e[0].endswith("meta_data"):
            return
        for k in e[3]:
            walk(k)
    walk(root)

    def pick(*tags):
        lst = [e for t in tags for e in found.get(t, [])]
        if not lst:
            raise Discard()
        return lst[a % len(lst)]

    if kind == "delattr":
        e = pick("graph_pair", "node_pair")
        names = [x for x in e[1] if x[0] != "n"]
        e[1].remove(names[b % len(names)])
    elif kind == "badref":
        e = pick("graph_pair")
        for x in e[1]:
            if x[0] == ("from_bank_id", "to_bank_id")[b % 2]:
                x[1] = "nosuch"
    elif kind == "badgraph":
        e = pick("graph_pair")
        for x in e[1]:
            if x[0] == ("from_graph_id", "to_graph_id")[b % 2]:
                x[1] = "nosuch"
    elif kind == "dupid":
        e = pick("file")
        e2 = copy.deepcopy(e)
        if b % 3:
            # the same id for something else
            e2[2] = found["file"][(a + 1) % len(found["file"])][2]
            if e2[2] == e[2]:
                e2[2] = "other-" + e[2].strip()
        found["graphbanks"][0][3].append(e2)
    elif kind == "format":
        for x in pick("file")[1]:
            if x[0] == "format":
                x[1] = "unheardof"
    elif kind == "tag":
        pick("graph_pair", "node_pair", "file", "relation")[0] = "bogus"


def damaged(plan):
    "-> corpus data, {bank path: data or None}"
    m = plan["model"]
    banks = dict((b["path"], M.bank_file(b, plan["bstyle"]))
                 for b in m["banks"])
    root = copy.deepcopy(M.corpus_elem(m, P, plan["style"]))
    for d in plan["damage"]:
        if d[0] in ("delattr", "badref", "badgraph", "dupid", "format", "tag"):
            damage_elem(root, d)
    data = M.Ser(plan["style"]).doc(root)
    for d in plan["damage"]:
        if d[0] == "trunc":
            data = data[:d[1] % len(data)]
        elif d[0] == "flip":
            i = d[1] % len(data)
            data = data[:i] + chr(ord(data[i]) ^ (1 << d[2] % 8)) + data[i + 1:]
        elif d[0] == "cut":
            i = d[1] % len(data)
            data = data[:i] + data[i + 1 + d[2] % 60:]
        elif d[0] == "nobank":
            banks[m["banks"][d[1] % len(m["banks"])]["path"]] = None
        elif d[0] == "bank":
            b = copy.deepcopy(m["banks"][d[1] % len(m["banks"])])
            x = banks[b["path"]]
            if d[2] == "trunc":
                x = x[:d[3] % len(x)]
            elif d[2] == "flip":
                i = d[3] % len(x)
                x = x[:i] + chr(ord(x[i]) ^ (1 << d[4])) + x[i + 1:]
            elif d[2] == "dropgraph":
                del b["graphs"][d[3] % len(b["graphs"])]
                x = M.bank_file(b, plan["bstyle"])
            elif d[2] == "empty":
                x = ""
            else:
                g = b["graphs"][d[3] % len(b["graphs"])]
                nd = g["nodes"][d[4] % len(g["nodes"])]
                if d[3] % 2:
                    nd["tokens"] = None
                else:
                    nd["label"] = ""
                x = M.bank_file(b, plan["bstyle"])
            banks[b["path"]] = x
    return data, banks


def strict(data, banks, m, mode):
    """
    what the damaged input says, or None if it must not be accepted, or
    "unclear" if both are fine
    """
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
    except Exception:
        return None
    known = {"parallel_graph_corpus": ("corpus_meta_data", "graphbanks",
                                       "node_relations", "aligned_graphs"),
             "graphbanks": ("file",), "file": (), "node_relations":
             ("relation",), "relation": (), "aligned_graphs": ("graph_pair",),
             "graph_pair": ("graph_meta_data", "node_pair"), "node_pair": ()}
    need = {"file": ("id", "format"), "graph_pair":
            ("from_bank_id", "to_bank_id", "from_graph_id", "to_graph_id"),
            "node_pair": ("from_node_id", "to_node_id", "relation")}
    if root.tag != "parallel_graph_corpus":
        return "unclear"
    stack = [root]
    bad = False
    ids = {}
    while stack:
        e = stack.pop()
        if e.tag in ("corpus_meta_data", "graph_meta_data"):
            continue
        for k in e:
            if k.tag not in known[e.tag] and k.tag not in known:
                if e.tag == "graph_pair" or k.tag in known or True:
                    return "unclear"
            elif k.tag not in known[e.tag]:
                if k.tag in ("corpus_meta_data", "graph_meta_data"):
                    continue
                return "unclear"
        stack.extend(list(e))
        for a in need.get(e.tag, ()):
            if not e.get(a):
                if e.tag == "file" or e.get(a) == "":
                    return "unclear"
                bad = True
        if e.tag in ("file", "relation") and not (e.text or "").strip():
            return "unclear"
        if e.tag == "file":
            old = ids.setdefault(e.get("id"), e)
            if old.text.strip() != e.text.strip():
                bad = True
            elif old is not e:
                return "unclear"
    if bad:
        return None
    # one-to-one
    got = M.parse_corpus(data, P)
    if got is None:
        return "unclear"
    got.pop("entries")
    got["relations"].sort()
    if len(set(got["relations"])) != len(got["relations"]):
        return "unclear"
    allbanks = {}
    for b in m["banks"]:
        x = banks[b["path"]]
        # unaligned graphs are skipped in sparse loading
        wanted = None
        if mode == 2:
            wanted = set(p["g"][k] for p in got["pairs"] for k in (0, 1)
                         if p["b"][k] and p["b"][k][0] == b["path"])
        allbanks[b["path"]] = None if x is None else \
            M.parse_graphml(x, wanted)
    for p in got["pairs"]:
        if not p["b"][0] or not p["b"][1]:
            return None
        if p["b"][0] == p["b"][1] and p["g"][0] == p["g"][1]:
            return "unclear"
        if len(set(a[0] for a in p["align"])) != len(p["align"]) or \
                len(set(a[1] for a in p["align"])) != len(p["align"]):
            return "unclear"
        if mode == 3:
            continue
        graphs = []
        for k in (0, 1):
            path, fmt = p["b"][k]
            if fmt.lower() != "graphml":
                return None
            if allbanks.get(path) is None or p["g"][k] not in allbanks[path]:
                return None
            graphs.append(allbanks[path][p["g"][k]])
        p["graphs"] = graphs
    if mode != 3:
        # listed but unused graphbanks are opened, too
        for _, text, fmt in M.parse_corpus(data, P)["entries"]:
            path = text if text.startswith("/") else M.posixpath.normpath(
                M.posixpath.join("/data", text))
            if allbanks.get(path) is None or fmt.lower() != "graphml":
                return None
    return got


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    for d in ("/data", "/data/gb", "/srv/c", "/work"):
        fs.mkdirs(d)
    s = Session(w, "p", "/work", [])
    corpus = None
    before = None
    prior = plan["prior"]
    M.put_banks(fs, m, plan["bstyle"])
    if prior is not None:
        fs.put("/work/prior.pgc", M.corpus_xml(prior, "/work/prior.pgc"))

        def load():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            c.read("/work/prior.pgc", graph_loading=plan["mode"])
            return c
        corpus = s.must("load the prior corpus", load)
    else:
        def new():
            from daeso.pgc.corpus import ParallelGraphCorpus
            return ParallelGraphCorpus()
        corpus = s.must("create a corpus", new)
    before = s.must("inspect", M.snap, corpus, plan["mode"] != 3)

    data, banks = damaged(plan)
    fs.put(P, data)
    for path, x in banks.items():
        if x is None:
            fs.unlink(path)
        else:
            fs.put(path, x)
    if plan["damage"] and plan["damage"][0][0] == "denied":
        t = [P] + sorted(banks)
        fs.lookup(t[plan["damage"][0][1] % len(t)]).mode = 0
    want = strict(data, banks, m, plan["mode"])
    if plan["damage"] and plan["damage"][0][0] == "denied":
        t = [P] + sorted(banks)
        if t[plan["damage"][0][1] % len(t)] == P:
            want = None
        elif want is not None:
            want = "unclear"
            # a graphbank that cannot be read, though nobody may want it
            if plan["mode"] != 3:
                want = None
    base = s.p.steps
    for f in plan["faults"]:
        f = dict(f)
        if "k" in f:
            f["at"] += s.p.kindsteps.get(f["k"], 0)
        else:
            f["at"] += base
        s.p.faults.append(f)
    k0 = dict(s.p.kindsteps)

    def read():
        from daeso.pgc.corpus import ParallelGraphCorpus
        if plan["how"] == "init":
            return ParallelGraphCorpus(inf=P, graph_loading=plan["mode"])
        if plan["how"] == "file":
            f = open(P)
            try:
                corpus.read(f, graph_loading=plan["mode"])
            finally:
                s.p.faults = []
                f.close()
        else:
            corpus.read(P, graph_loading=plan["mode"])
        return corpus
    out = s.do(read)
    steps = {"n": s.p.steps - base,
             "k": dict((k, n - k0.get(k, 0)) for k, n in s.p.kindsteps.items()
                       if n > k0.get(k, 0))}
    s.p.faults = []
    loaded = plan["mode"] != 3
    errs = [f for f in s.p.fired if f != "short"]
    if out.kind == "ok":
        if errs:
            violate("silent", "reading met %s, yet succeeded" % errs)
        if want is None:
            if not s.p.warnings:
                violate("accepted", "damaged input was accepted: %r"
                        % plan["damage"])
        if isinstance(want, dict) and (prior is None or plan["how"] == "init"):
            got = s.must("inspect", M.snap, out.value, loaded)
            if canon(got) != canon(want):
                violate("half", first_diff(want, got))
    elif out.kind == "exc":
        if isinstance(want, dict) and not errs:
            violate("rejected", "%r\n%s" % (out, out.tb))
        got = s.must("inspect", M.snap, corpus, loaded)
        if canon(got) != canon(before):
            violate("changed", "reading failed with %r, but the corpus "
                    "changed: %s" % (out, first_diff(before, got)))
    else:
        violate("stop", repr(out))
    # once repaired, it is read exactly
    fs.put(P, M.corpus_xml(m, P, plan["style"]))
    M.put_banks(fs, m, plan["bstyle"])
    for n in [P] + sorted(banks):
        fs.lookup(n).mode = 0o644
    if out.kind == "exc" and prior is None:
        again = s.must("read again", lambda: corpus.read(
            P, graph_loading=plan["mode"]) or corpus)
    else:
        def fresh():
            from daeso.pgc.corpus import ParallelGraphCorpus
            return ParallelGraphCorpus(inf=P, graph_loading=plan["mode"])
        again = s.must("read again", fresh)
    got = s.must("inspect", M.snap, again, loaded)
    full = M.expect(m, loaded)
    if canon(got) != canon(full):
        violate("retry", first_diff(full, got))
    s.end()
    return {"steps": {"p": steps}, "nt": bool(plan["damage"] or plan["faults"])}
