# -*- coding: utf-8 -*-
"""
C26 ordered graphs: order of edges, data and yields after any history of
edits, copies, saves and crashes
"""
import copy
import posixpath
from lib import *
import model as M

SHRINK = ("ops", "bank.graphs", "faults")
SIMPLER = (("bank", [None]), ("world.buf", [4096]), ("daeso", [False]))

NV = 3
NAMES = ["a", "b", "c", "d", "e", "f", "n1", "0"]
WORDS = ["de", "kat", "zat", "x1", ",", ".", "!", "op", u"\u00e9\u00e9n"]
LABELS = ["su", "obj", "hd", "mod", None]


def gen(rng, tier):
    daeso = rng.chance(0.6)
    bank = None
    if daeso and rng.chance(0.5):
        bank = {"path": "/data/g.xml", "format": "graphml",
                "graphs": [M.gen_graph(rng, "s.%d" % i,
                                       {"maxnodes": 7})
                           for i in range(rng.int(1, 2))]}
        for g in bank["graphs"]:
            rng.shuffle(g["edges"])
    pool = [("node", 6), ("edge", 12), ("edges", 4), ("rmnode", 2),
            ("rmedge", 4), ("rmedges", 1), ("data", 3), ("path", 2),
            ("star", 1), ("copy", 2), ("deepcopy", 1), ("save", 2),
            ("crash", 1), ("reload", 1), ("clear", 1), ("init", 1),
            ("bad", 2)]
    if daeso:
        pool += [("tokens", 3), ("tokstr", 2), ("root", 2), ("gtokens", 1)]
    else:
        pool += [("nodes", 2), ("fromedges", 1), ("fromgraph", 1)]
    names = rng.sample(NAMES, rng.int(3, len(NAMES)))
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 1024])},
            "daeso": daeso, "bank": bank, "names": names,
            "start": names[:rng.int(0, len(names))],
            "ops": [[rng.weighted(pool)] + [rng.below(1 << 16)
                                            for _ in range(4)]
                    for _ in range(rng.int(4, 40))],
            "faults": shorts(rng, 0.3)}


class MGraph(object):
    "model of an ordered graph"

    def __init__(self):
        self.nodes = {}         # name -> attributes
        self.succ = {}          # name -> names in order
        self.pred = {}
        self.data = {}          # (u, v) -> attributes
        self.root = None
        self.tokens = None
        self.real = None

    def copy(self):
        real, self.real = self.real, None
        c = copy.deepcopy(self)
        self.real = real
        return c

    def add_node(self, n, attrs):
        self.succ.setdefault(n, [])
        self.pred.setdefault(n, [])
        self.nodes.setdefault(n, {}).update(copy.deepcopy(attrs))

    def add_edge(self, u, v, attrs):
        for n in (u, v):
            self.add_node(n, {})
        if (u, v) not in self.data:
            self.succ[u].append(v)
            self.pred[v].append(u)
            self.data[u, v] = {}
        self.data[u, v].update(attrs)

    def rm_edge(self, u, v):
        del self.data[u, v]
        self.succ[u].remove(v)
        self.pred[v].remove(u)

    def rm_node(self, n):
        for u, v in list(self.data):
            if n in (u, v):
                self.rm_edge(u, v)
        del self.nodes[n], self.succ[n], self.pred[n]

    def dump(self):
        return [self.root, self.tokens, sorted(self.nodes.items()),
                sorted(self.succ.items()), sorted(self.pred.items()),
                sorted((list(k), v) for k, v in self.data.items())]

    # --- what a Daeso graph tells -------------------------------------

    def empty(self, n):
        return not self.nodes[n]["tokens"]

    def punct(self, n):
        t = self.nodes[n]["tokens"]
        return bool(t) and not [x for x in t if x not in PUNCT]

    def terminal(self, n, punct=True, empty=True):
        return not self.succ[n] and (punct or not self.punct(n)) and \
            (empty or not self.empty(n))

    def leaves(self, n, punct, empty):
        seen, out = set(), []

        def visit(x):
            if x in seen:
                return
            seen.add(x)
            if self.terminal(x, punct, empty):
                out.append(x)
            for y in self.succ[x]:
                visit(y)
        visit(n)
        return out


PUNCT = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")


def attrs_of(a):
    out = {}
    for i, k in enumerate(["w", "pos", "x"]):
        if a >> i & 1:
            out[k] = "%s%d" % (k, a >> 3 & 7)
    return out


def words_of(a):
    return [WORDS[(a >> 3 * i) % len(WORDS)] for i in range(a % 4)]


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    fs.mkdirs("/data")
    fs.mkdirs("/work")
    st = {"w": w, "plan": plan, "s": Session(w, "p0", "/work",
                                             plan["faults"]),
          "v": [], "n": 0, "saved": {}}
    if plan["bank"]:
        if not plan["bank"]["graphs"]:
            raise Discard()
        fs.put(plan["bank"]["path"], M.bank_file(plan["bank"]))

        def load():
            from daeso.gb.graphbank import GraphBank
            gb = GraphBank("/data/g.xml", "graphml")
            gb.load()
            return gb
        gb = st["s"].must("load", load)
        for g in plan["bank"]["graphs"][:2]:
            m = from_bank(g)
            m.real = st["s"].must("get", lambda: gb.get_graph(g["id"]))
            # attributes are part of C04
            for n in m.nodes:
                m.nodes[n] = st["s"].must("node", lambda: copy.deepcopy(
                    m.real.node[n]))
            for e in m.data:
                m.data[e] = st["s"].must("edge", lambda: copy.deepcopy(
                    m.real[e[0]][e[1]]))
            st["v"].append(m)
    else:
        m = MGraph()
        m.real = st["s"].must("new", new, plan["daeso"])
        st["v"].append(m)
        for n in plan["start"]:
            node(st, m, n, 1, 0)
    st["s"].must("check", check, st)
    for op in plan["ops"]:
        if op[0] in ("crash", "reload"):
            crash(st, op[0] == "crash")
        else:
            st["s"].must(op[0], apply, op, st)
        st["s"].must("check after " + op[0], check, st)
    st["s"].end()
    return {"nt": len(plan["ops"]) > 3,
            "state": [m.dump() for m in st["v"]]}


def from_bank(g):
    m = MGraph()
    m.root = g["root"]
    m.tokens = list(g["tokens"])
    for n in g["nodes"]:
        m.add_node(n["id"], {})
    for u, v, l in g["edges"]:
        m.add_edge(u, v, {})
    return m


def new(daeso):
    if daeso:
        from daeso.graph.daesograph import DaesoGraph
        return DaesoGraph(id="g")
    from daeso.graph.ograph import ODiGraph
    return ODiGraph()


def path_of(i):
    return "/work/g%d.pickle" % i


def crash(st, killed):
    "another process continues with what was saved"
    st["s"].p.dead = killed
    st["s"].end()
    st["n"] += 1
    st["s"] = Session(st["w"], "p%d" % st["n"], "/work")
    st["v"] = []
    for i in sorted(st["saved"]):
        def load():
            import pickle
            with open(path_of(i), "rb") as f:
                return pickle.load(f)
        m = st["saved"][i].copy()
        m.real = st["s"].must("unpickle", load)
        st["v"].append(m)
    if not st["v"]:
        m = MGraph()
        m.real = st["s"].must("new", new, st["plan"]["daeso"])
        st["v"].append(m)


def put(st, i, m):
    if len(st["v"]) < NV:
        st["v"].append(m)
    else:
        st["v"][i % NV] = m


def node(st, m, n, a, b):
    attrs = attrs_of(a)
    if st["plan"]["daeso"]:
        label, toks = LABELS[b % len(LABELS)], words_of(b >> 4)
        if a & 64:
            toks = None
        kw = {"tokens": list(toks)} if toks is not None else {}
        if a & 32:
            m.real.add_node(n, label, attr_dict=dict(attrs), **kw)
        else:
            kw.update(attrs)
            m.real.add_node(n, label, **kw)
        m.add_node(n, dict(attrs, label=label, tokens=toks or []))
        return
    if a & 32:
        m.real.add_node(n, dict(attrs))
    else:
        m.real.add_node(n, **attrs)
    m.add_node(n, attrs)


def apply(op, st):
    import networkx
    k, a, b, c, d = op
    daeso = st["plan"]["daeso"]
    m = st["v"][a % len(st["v"])]
    g = m.real
    have = sorted(m.nodes)
    names = st["plan"]["names"]

    def pick(x):
        if daeso:
            return have[x % len(have)]
        return names[x % len(names)]

    def known(x):
        return have[x % len(have)]
    if k == "node":
        node(st, m, names[b % len(names)], c, d)
    elif k == "nodes":
        lst = [names[(b >> i) % len(names)] for i in range(c % 4)]
        attrs = attrs_of(d)
        g.add_nodes_from(lst, **attrs)
        for n in lst:
            m.add_node(n, attrs)
    elif k == "clear":
        if b % 3 == 0:
            g.clear()
            real = m.real
            root, toks = m.root, m.tokens
            m.__init__()
            m.real, m.root, m.tokens = real, root, toks
    elif k == "copy":
        x = m.copy()
        x.real = g.copy()
        put(st, b, x)
    elif k == "deepcopy":
        x = m.copy()
        x.real = copy.deepcopy(g)
        put(st, b, x)
    elif k == "save":
        import pickle
        i = a % len(st["v"])
        with open(path_of(i), "wb") as f:
            pickle.dump(g, f, b % 3)
        st["saved"][i] = m.copy()
    elif k == "init":
        x = MGraph()
        x.real = new(daeso)
        put(st, b, x)
    elif k == "fromedges":
        from daeso.graph.ograph import ODiGraph
        lst = [(names[(b >> i) % len(names)], names[(c >> i) % len(names)])
               for i in range(d % 6)]
        x = MGraph()
        if not lst:
            return
        x.real = ODiGraph(lst)
        for u, v in lst:
            x.add_edge(u, v, {})
        put(st, b, x)
    elif k == "fromgraph":
        from daeso.graph.ograph import ODiGraph
        x = m.copy()
        x.real = ODiGraph(g)
        # the edges go from node to node
        for n in x.pred:
            x.pred[n] = None
        fix_pred(x)
        put(st, b, x)
    elif k == "root":
        if have:
            m.root = g.root = known(b)
    elif k == "gtokens":
        toks = words_of(b)
        if c % 2:
            g.set_graph_token_string("  ".join(toks) + " ")
            m.tokens = toks
        else:
            m.tokens = g.tokens = None if c % 3 == 0 else list(toks)
    elif not have and (daeso or k in ("rmnode", "rmedge", "rmedges", "data",
                                      "bad")):
        pass
    elif k in ("edge", "edges", "path", "star"):
        add(st, m, op, pick)
    elif k == "rmnode":
        n = known(b)
        g.remove_node(n)
        m.rm_node(n)
    elif k in ("rmedge", "data"):
        es = sorted(m.data)
        if not es:
            return
        u, v = es[b % len(es)]
        if k == "rmedge":
            g.remove_edge(u, v)
            m.rm_edge(u, v)
        else:
            g[u][v]["w"] = "new%d" % (c % 5)
            m.data[u, v]["w"] = "new%d" % (c % 5)
    elif k == "rmedges":
        es = [e for i, e in enumerate(sorted(m.data)) if b >> i & 1]
        g.remove_edges_from(es)
        for e in es:
            m.rm_edge(*e)
    elif k == "tokens":
        n = known(b)
        toks = None if c % 5 == 0 else words_of(d)
        g.set_node_tokens(n, toks and list(toks))
        m.nodes[n]["tokens"] = toks and list(toks)
        if toks and c % 3 == 0:
            g.get_node_tokens(n).append("more")
            m.nodes[n]["tokens"].append("more")
    elif k == "tokstr":
        n = known(b)
        toks = words_of(d) or ["x"]
        g.set_node_token_string(n, " ".join(toks))
        m.nodes[n]["tokens"] = toks
    elif k == "bad":
        refused(st, m, b, c, d)
    else:
        raise HarnessError(k)


def add(st, m, op, pick):
    k, a, b, c, d = op
    g = m.real
    daeso = st["plan"]["daeso"]
    attrs = attrs_of(d)
    label = LABELS[(d >> 6) % len(LABELS)]
    full = dict(attrs, label=label) if daeso else dict(attrs)
    kw = {}
    if daeso and label is not None:
        kw["label"] = label
    if k == "edge":
        u, v = pick(b), pick(c)
        if d & 1 << 12:
            g.add_edge(u, v, attr_dict=dict(attrs), **kw)
        else:
            g.add_edge(u, v, **dict(kw, **attrs))
        m.add_edge(u, v, full)
        return
    if k == "edges":
        lst = [(pick(b >> i), pick(c >> i)) for i in range(1 + d % 5)]
        real = []
        for i, (u, v) in enumerate(lst):
            if d >> i & 4:
                extra = {"x": "own%d" % i}
                if daeso and b >> i & 4:
                    extra["label"] = "own"
                real.append((u, v, extra))
                m.add_edge(u, v, dict(full, **extra))
            else:
                real.append((u, v))
                m.add_edge(u, v, full)
        if d & 1 << 12:
            g.add_edges_from(real, attr_dict=dict(attrs), **kw)
        elif d & 1 << 13:
            g.add_edges_from(iter(real), **dict(kw, **attrs))
        else:
            g.add_edges_from(real, **dict(kw, **attrs))
        return
    lst = [pick(b >> i) for i in range(2 + c % 3)]
    if k == "path":
        g.add_path(lst)
        es = zip(lst, lst[1:])
    else:
        g.add_star(lst)
        es = [(lst[0], x) for x in lst[1:]]
    for u, v in es:
        m.add_edge(u, v, {"label": None} if daeso else {})


def refused(st, m, b, c, d):
    "things that cannot be done raise an exception and change nothing"
    import networkx
    g = m.real
    have = sorted(m.nodes)
    n = have[b % len(have)]
    gone = [x for x in NAMES + ["gone"] if x not in m.nodes]
    x = gone[c % len(gone)]
    what = d % 7
    try:
        if what == 0:
            g.remove_node(x)
        elif what == 1:
            g.remove_edge(n, x)
        elif what == 2 and st["plan"]["daeso"]:
            g.add_edge(n, x, "l")
        elif what == 3 and st["plan"]["daeso"]:
            g.add_edge(x, n)
        elif what == 4 and st["plan"]["daeso"]:
            g.add_edges_from([(n, x) if b & 1 else (x, n), (n, n)])
        elif what == 5:
            g.add_edge(n, n, attr_dict=7) if not st["plan"]["daeso"] else \
                g.add_edge(n, n, None, 7)
        elif what == 6:
            g.add_edges_from([(n,), (n, n)] if b & 1 else
                             iter([(n, n, {}, 1)]))
        else:
            return
    except (networkx.NetworkXError, ValueError, KeyError):
        return
    violate("accepted", "impossible change %d of %s and %s" % (what, n, x))


def fix_pred(x):
    "edges converted node by node: predecessors may come in any order"
    for n in x.pred:
        x.pred[n] = [None]


def check(st):
    for m in st["v"]:
        g = m.real
        daeso = st["plan"]["daeso"]
        if sorted(g.nodes()) != sorted(m.nodes) or len(g) != len(m.nodes):
            violate("nodes", "%r, should be %r" % (sorted(g.nodes()),
                                                   sorted(m.nodes)))
        if g.number_of_edges() != len(m.data):
            violate("edges", "%d edges, should be %d" % (
                g.number_of_edges(), len(m.data)))
        for n in sorted(m.nodes):
            ss, ps = m.succ[n], m.pred[n]
            if ps and None in ps:
                # converted: take any order, but keep it from now on
                ps = list(g.predecessors(n))
                if sorted(ps) != sorted(u for u, v in m.data if v == n):
                    violate("predecessors", "%s: %r" % (n, ps))
                m.pred[n] = ps
            if g.node[n] != m.nodes[n]:
                violate("node", "%s has %r, should be %r" % (
                    n, g.node[n], m.nodes[n]))
            for what, got in (("successors", g.successors(n)),
                              ("neighbors", g.neighbors(n)),
                              ("adjacency", list(g[n])),
                              ("out_edges", [v for u, v in
                                             g.out_edges([n])])):
                if got != ss:
                    violate(what, "%s: %r, should be %r" % (n, got, ss))
            for what, got in (("predecessors", g.predecessors(n)),
                              ("in_edges", [u for u, v in
                                            g.in_edges([n])])):
                if got != ps:
                    violate(what, "%s: %r, should be %r" % (n, got, ps))
            for what, got, want in (
                    ("data", g.out_edges([n], data=True),
                     [(n, v, m.data[n, v]) for v in ss]),
                    ("data", g.in_edges([n], data=True),
                     [(u, n, m.data[u, n]) for u in ps])):
                if got != want:
                    violate(what, "%r, should be %r" % (got, want))
            if g.out_degree(n) != len(ss) or g.in_degree(n) != len(ps):
                violate("degree", n)
            for v in sorted(m.nodes):
                if bool(g.has_edge(n, v)) != ((n, v) in m.data):
                    violate("has_edge", "%s %s" % (n, v))
        if daeso:
            check_daeso(m)


def check_daeso(m):
    g = m.real
    if g.root != m.root or g.tokens != m.tokens:
        violate("graph", "root %r tokens %r" % (g.root, g.tokens))
    want = None if m.tokens is None else " ".join(m.tokens)
    if g.get_graph_token_string() != want:
        violate("graph tokens", repr(g.get_graph_token_string()))
    for n in sorted(m.nodes):
        toks = m.nodes[n]["tokens"]
        if g.get_node_tokens(n) != toks:
            violate("tokens", n)
        want = None if toks is None else " ".join(toks)
        if g.get_node_token_string(n) != want:
            violate("token string", "%s: %r, should be %r" % (
                n, g.get_node_token_string(n), want))
        if bool(g.node_is_empty(n)) != m.empty(n):
            violate("empty", n)
        if bool(g.node_is_punct(n)) != m.punct(n):
            violate("punct", "%s: %r" % (n, toks))
        if bool(g.node_is_non_terminal(n)) != bool(m.succ[n]):
            violate("non-terminal", n)
    for punct in (True, False):
        for empty in (True, False):
            kw = {"with_punct": punct, "with_empty": empty}
            if punct and empty:
                kw = {}
            want = [n for n in sorted(m.nodes) if m.terminal(n, punct, empty)]
            if sorted(g.terminals(**kw)) != want or \
                    sorted(g.terminals_iter(**kw)) != want:
                violate("terminals", "%r, should be %r" % (
                    sorted(g.terminals(**kw)), want))
            for n in sorted(m.nodes):
                if bool(g.node_is_terminal(n, **kw)) != (n in want):
                    violate("terminal", n)
                got = g.terminal_yield(n, **kw)
                if got != m.leaves(n, punct, empty):
                    violate("yield", "of %s (%r): %r, should be %r" % (
                        n, kw, got, m.leaves(n, punct, empty)))
            if m.root in m.nodes and \
                    g.terminal_yield(**kw) != m.leaves(m.root, punct, empty):
                violate("yield", "of the root")
    if sorted(g.non_terminals()) != sorted(n for n in m.nodes if m.succ[n]):
        violate("non-terminals", "")
