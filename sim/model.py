# -*- coding: utf-8 -*-
"""
Reference model of the data the system keeps: graphbanks, graphs and parallel
graph corpora as plain JSON structures; independent writers for the file
formats; what a correct reader must see (`expect`), and what the code under
test shows through its public interface (`snap`).
"""

import json
import posixpath

from prng import Rng

RELS = ["equals", "generalizes", "intersects", "restates", "specifies"]
WORDS = ["de", "man", "ziet", "een", "hond", "the", "cat", "sat", "on", "mat",
         "x", "A.", "10", "2nd", "it's", "a&b", "<i>", '"q"', u"caf\xe9",
         u"na\xefve", u"\u03b1\u03b2", "--", ".", ",", "!"]
PLAIN = ["de", "man", "ziet", "een", "hond", "the", "cat", "sat", "on", "mat",
         "x", "A.", "10", "2nd"]
DIRS = ["/data", "/data/pgc", "/data/gb", "/data/gb/sub dir", "/srv/c/d",
        "/work", "/data/pgc/ma", "/data/a&b"]


# --------------------------------------------------------------------------
# generation
# --------------------------------------------------------------------------

def gen_text(rng, uni=True, n=4):
    return " ".join(rng.choice(WORDS if uni else PLAIN)
                    for _ in range(rng.int(1, n)))


def gen_elem(rng, depth=0, tags=None, uni=True):
    tag = rng.choice(tags or ["annotator", "comment", "note", "date", "file",
                              "relation", "x", "method"])
    attrs = [[k, gen_text(rng, uni, 2)]
             for k in rng.subset(["id", "n", "lang", "when"], 0.25)]
    text = gen_text(rng, uni) if rng.chance(0.7) else ""
    kids = []
    if depth < 2:
        kids = [gen_elem(rng, depth + 1, tags, uni)
                for _ in range(rng.weighted([(0, 6), (1, 2), (2, 1)]))]
    tail = gen_text(rng, uni, 2) if depth and rng.chance(0.15) else ""
    if text and kids and rng.chance(0.25):
        # mixed content laid out over lines
        text += rng.choice(["\n", " ", "\n  "])
    return [tag, attrs, text, kids, tail]


def gen_meta(rng, tag, uni=True, tags=None):
    attrs = [[k, gen_text(rng, uni, 1)] for k in rng.subset(["v", "id"], 0.2)]
    text = gen_text(rng, uni) if rng.chance(0.2) else ""
    kids = [gen_elem(rng, 1, tags, uni) for _ in range(rng.int(0, 3))]
    return [tag, attrs, text, kids, ""]


def gen_graph(rng, gid, o):
    n = rng.int(1, o.get("maxnodes", 6))
    style = o.get("nodeids") or rng.choice(["n", "num", "word"])
    if style == "n":
        ids = ["n%d" % i for i in range(n)]
    elif style == "num":
        ids = ["%d" % i for i in range(n)]
    else:
        ids = rng.sample(["a", "b", "root", "np", "vp", "n1", "0", "x.1", "s",
                          "np-2", "q", "z"], n)
    uni = o.get("uni", True)
    words = WORDS if uni else PLAIN
    nodes = []
    for i in ids:
        toks = [rng.choice(words)
                for _ in range(rng.weighted([(1, 5), (2, 2), (3, 1)]))]
        if o.get("empty") and rng.chance(0.15):
            toks = []
        extra = {}
        if rng.chance(0.4):
            extra["pos"] = rng.choice(["noun", "verb", "det", "x & y"])
        nodes.append({"id": i, "label": rng.choice(["np", "vp", "s", "punct",
                                                    "w"]),
                      "tokens": toks, "x": extra})
    edges = []
    seen = set()
    for k in range(1, n):
        p = rng.below(k)
        edges.append([ids[p], ids[k],
                      rng.choice(["su", "obj", "hd", None])])
        seen.add((p, k))
    for _ in range(rng.weighted([(0, 5), (1, 2), (2, 1)])):
        if n > 2:
            a, b_ = rng.below(n), rng.below(n)
            if a < b_ and (a, b_) not in seen:
                seen.add((a, b_))
                edges.append([ids[a], ids[b_], rng.choice(["su", "obj"])])
    g = {"id": gid, "tokens": [rng.choice(words)
                               for _ in range(rng.int(1, 6))],
         "root": ids[0] if rng.chance(0.9) else None,
         "nodes": nodes, "edges": edges, "x": {}}
    if rng.chance(0.2):
        g["x"]["source"] = gen_text(rng, uni, 2)
    if o.get("failed") and rng.chance(0.2):
        g["failed"] = True
    return g


def gen_model(rng, **o):
    """
    options: uni, formats, maxbanks, maxgraphs, maxpairs, rels, meta,
    distinct (no pair of graphs occurs twice)
    """
    uni = o.setdefault("uni", True)
    rels = list(o.get("rels") or RELS)
    if not o.get("rels"):
        if rng.chance(0.2):
            rels = rng.sample(RELS, rng.int(1, 4))
        if rng.chance(0.15):
            rels.append("custom rel")
        if uni and rng.chance(0.1):
            rels.append(u"gel\xedjk")
        if rng.chance(0.04):
            rels.append(rng.choice(rels))
    m = {"relations": sorted(rels), "banks": [], "pairs": [], "meta": None}
    nb = rng.int(1, o.get("maxbanks", 3))
    used = set()
    for i in range(nb):
        d = rng.choice(o.get("dirs", DIRS))
        while True:
            name = "%s/%s%d.xml" % (d, rng.choice(["gb", "bank-", "src.",
                                                   "a b"]), rng.below(30))
            if name not in used:
                break
        used.add(name)
        fmt = rng.choice(o.get("formats", ["graphml"]))
        ng = rng.int(1, o.get("maxgraphs", 4))
        gid = rng.choice(["%d", "g%d", "s.%d"])
        start = rng.choice([0, 1, 7])
        graphs = [gen_graph(rng, gid % (start + k),
                            dict(o, empty=o.get("empty") and fmt == "alpino",
                                 failed=o.get("failed") and fmt == "alpino"))
                  for k in range(ng)]
        if rng.chance(0.3):
            rng.shuffle(graphs)
        m["banks"].append({"path": name, "format": fmt, "graphs": graphs})
    if o.get("meta", True) and rng.chance(0.6):
        m["meta"] = gen_meta(rng, "corpus_meta_data", uni, o.get("metatags"))
    lo = o.get("minpairs", 0)
    for _ in range(rng.int(lo, o.get("maxpairs", 5))):
        p = gen_pair(rng, m, o)
        if p is not None:
            m["pairs"].append(p)
    return m


def gen_pair(rng, m, o=None):
    o = o or {}
    for _ in range(20):
        i, j = rng.below(len(m["banks"])), rng.below(len(m["banks"]))
        gi = rng.choice(m["banks"][i]["graphs"])
        gj = rng.choice(m["banks"][j]["graphs"])
        if gi is gj:
            # a graph aligned with itself is not supported by the format
            continue
        break
    else:
        return None
    p = {"b": [i, j], "g": [gi["id"], gj["id"]], "align": [], "meta": None}
    p["align"] = gen_align(rng, m, p)
    if o.get("meta", True) and rng.chance(0.3):
        p["meta"] = gen_meta(rng, "graph_meta_data", o.get("uni", True),
                             o.get("metatags"))
    return p


def gen_align(rng, m, p, keep=0.7):
    s = [n["id"] for n in graph_of(m, p, 0)["nodes"]]
    t = [n["id"] for n in graph_of(m, p, 1)["nodes"]]
    rng.shuffle(s)
    rng.shuffle(t)
    return sorted([a, b_, rng.choice(m["relations"])]
                  for a, b_ in zip(s, t) if rng.chance(keep))


def graph_of(m, p, side):
    bank = m["banks"][p["b"][side]]
    for g in bank["graphs"]:
        if g["id"] == p["g"][side]:
            return g
    raise KeyError(p["g"][side])


def bank_graph(bank, gid):
    for g in bank["graphs"]:
        if g["id"] == gid:
            return g
    return None


# --------------------------------------------------------------------------
# writing XML, independently of the code under test
# --------------------------------------------------------------------------

def gen_style(rng):
    "a formatting variant: same document, other bytes"
    return {"indent": rng.chance(0.5), "q": rng.choice(['"', "'"]),
            "sh": rng.below(1 << 16), "comments": rng.chance(0.2),
            "cdata": rng.chance(0.15), "refs": rng.chance(0.2),
            "enc": rng.weighted([("utf-8", 6), ("ascii", 1),
                                 ("utf-16", 1), ("iso-8859-1", 1)]),
            "decl": rng.chance(0.8), "abs": rng.chance(0.4),
            "pad": rng.chance(0.2), "selfclose": rng.chance(0.6)}


PLAINSTYLE = {"indent": True, "q": '"', "sh": 0, "comments": False,
              "cdata": False, "refs": False, "enc": "utf-8", "decl": True,
              "abs": False, "pad": False, "selfclose": True}


def _u(s):
    return s if isinstance(s, unicode) else s.decode("ascii")


class Ser(object):

    def __init__(self, st):
        self.st = st
        self.rng = Rng("style", st["sh"])
        self.out = []

    def text(self, s):
        s = _u(s)
        if self.st["cdata"] and s and "]]>" not in s and \
                self.refs(s) == s and self.rng.chance(0.4):
            self.out.append(u"<![CDATA[" + s + u"]]>")
            return
        s = s.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")
        self.out.append(self.refs(s))

    def refs(self, s):
        st = self.st
        r = []
        for c in s:
            if ord(c) > 126 and (st["refs"] or st["enc"] == "ascii" or
                                 (st["enc"] == "iso-8859-1" and ord(c) > 255)):
                r.append(u"&#%d;" % ord(c))
            else:
                r.append(c)
        return u"".join(r)

    def attr(self, s):
        s = _u(s).replace("&", "&amp;").replace("<", "&lt;")
        s = s.replace('"', "&quot;").replace("'", "&apos;")
        s = s.replace("\n", "&#10;").replace("\t", "&#9;")
        return self.refs(s)

    def elem(self, e, level=0, ws=True):
        "e = [tag, [[k, v]...], text, children, tail]; ws: may be indented"
        tag, attrs, text, kids = e[0], list(e[1]), e[2], e[3]
        tail = e[4] if len(e) > 4 else ""
        q = self.st["q"]
        if self.st["sh"]:
            self.rng.shuffle(attrs)
        self.out.append(u"<" + _u(tag))
        for k, v in attrs:
            self.out.append(u" %s=%s%s%s" % (_u(k), q, self.attr(v), q))
        if not text and not kids and self.st["selfclose"]:
            self.out.append(u"/>" if self.rng.chance(0.5) else u" />")
        else:
            self.out.append(u">")
            if text:
                self.text(text)
            ind = self.st["indent"] and ws and not text and kids and \
                not any(len(k) > 4 and k[4] for k in kids)
            for k in kids:
                if ind:
                    self.out.append(u"\n" + (level + 1) * u"  ")
                if self.st["comments"] and self.rng.chance(0.15):
                    self.out.append(u"<!-- c & < " + _u(k[0]) + u" -->")
                self.elem(k, level + 1, ws)
            if ind:
                self.out.append(u"\n" + level * u"  ")
            self.out.append(u"</%s>" % _u(tag))
        if tail:
            self.text(tail)

    def doc(self, root):
        enc = self.st["enc"]
        if self.st["decl"] or enc not in ("utf-8", "ascii"):
            self.out.append(u"<?xml version=%s1.0%s encoding=%s%s%s?>\n" % (
                self.st["q"], self.st["q"], self.st["q"],
                {"ascii": u"us-ascii", "utf-16": u"UTF-16"}.get(enc, _u(enc)),
                self.st["q"]))
        self.elem(root)
        s = u"".join(self.out)
        if self.st["indent"]:
            s += u"\n"
        return s.encode(enc)


def relpath(path, start):
    return posixpath.relpath(path, start)


def corpus_elem(m, path, st, bank_paths=None):
    """
    the document a corpus is stored as; bank_paths: how the banks are written
    """
    kids = []
    if m["meta"] is not None:
        kids.append(m["meta"])
    files = []
    rng = Rng("corpus", st["sh"])
    ids = {}
    order = list(range(len(m["banks"])))
    if st["sh"]:
        rng.shuffle(order)
    d = posixpath.dirname(path)
    for n, i in enumerate(order):
        bank = m["banks"][i]
        ids[i] = str(n + 1) if not st["sh"] % 3 == 1 else "b%d" % i
        if bank_paths and bank_paths[i] is not None:
            text = bank_paths[i]
        elif st["abs"]:
            text = bank["path"]
        else:
            text = relpath(bank["path"], d)
        if st["pad"]:
            text = "\n   " + text + "\n  "
        files.append(["file", [["id", ids[i]], ["format", bank["format"]]],
                      text, []])
    kids.append(["graphbanks", [], "", files])
    kids.append(["node_relations", [], "",
                 [["relation", [], r, []] for r in m["relations"]]])
    pairs = []
    for n, p in enumerate(m["pairs"]):
        pk = []
        if p["meta"] is not None:
            pk.append(p["meta"])
        for s, t, r in p["align"]:
            pk.append(["node_pair", [["from_node_id", s], ["to_node_id", t],
                                     ["relation", r]], "", []])
        pairs.append(["graph_pair", [["n", str(n + 1)],
                                     ["from_bank_id", ids[p["b"][0]]],
                                     ["to_bank_id", ids[p["b"][1]]],
                                     ["from_graph_id", p["g"][0]],
                                     ["to_graph_id", p["g"][1]]], "", pk])
    kids.append(["aligned_graphs", [], "", pairs])
    return ["parallel_graph_corpus", [], "", kids]


def corpus_xml(m, path, st=PLAINSTYLE, bank_paths=None):
    return Ser(st).doc(corpus_elem(m, path, st, bank_paths))


def graphml_elem(bank, st):
    rng = Rng("gml", st["sh"])
    names = [("tokens", "node"), ("tokens", "graph"), ("label", "node"),
             ("label", "edge"), ("root", "graph"), ("pos", "node"),
             ("source", "graph")]
    keyids = {}
    kids = []
    for n, (name, for_) in enumerate(names):
        kid = ("d%d" % n) if st["sh"] % 2 else name + "_" + for_
        keyids[(name, for_)] = kid
        kk = []
        if name == "pos" and bank.get("default"):
            kk = [["default", [], bank["default"], []]]
        kids.append(["key", [["id", kid], ["for", for_], ["attr.name", name],
                             ["attr.type", "string"]], "", kk])
    if st["sh"]:
        rng.shuffle(kids)
    for g in bank["graphs"]:
        gk = [["data", [["key", keyids[("tokens", "graph")]]],
               " ".join(g["tokens"]), []]]
        if g["root"] is not None:
            gk.append(["data", [["key", keyids[("root", "graph")]]],
                       g["root"], []])
        for k, v in sorted(g["x"].items()):
            gk.append(["data", [["key", keyids[(k, "graph")]]], v, []])
        if st["sh"]:
            rng.shuffle(gk)
        for nd in g["nodes"]:
            nk = [["data", [["key", keyids[("label", "node")]]],
                   nd["label"], []]]
            if nd["tokens"] is not None:
                nk.append(["data", [["key", keyids[("tokens", "node")]]],
                           " ".join(nd["tokens"]), []])
            for k, v in sorted(nd["x"].items()):
                nk.append(["data", [["key", keyids[(k, "node")]]], v, []])
            if st["sh"]:
                rng.shuffle(nk)
            gk.append(["node", [["id", nd["id"]]], "", nk])
        for u, v, l in g["edges"]:
            ek = []
            if l is not None:
                ek.append(["data", [["key", keyids[("label", "edge")]]], l, []])
            gk.append(["edge", [["source", u], ["target", v]], "", ek])
        kids.append(["graph", [["id", g["id"]], ["edgedefault", "directed"]],
                     "", gk])
    return ["graphml", [["xmlns", "http://graphml.graphdrawing.org/xmlns"]],
            "", kids]


def bank_file(bank, st=PLAINSTYLE):
    if bank["format"].lower() == "alpino":
        return json.dumps({"graphs": bank["graphs"], "end": True},
                          sort_keys=True)
    return Ser(st).doc(graphml_elem(bank, st))


def put_banks(fs, m, st=PLAINSTYLE):
    for bank in m["banks"]:
        fs.put(bank["path"], bank_file(bank, st))


# --------------------------------------------------------------------------
# canonical form
# --------------------------------------------------------------------------

def c_elem(e):
    return [e[0], sorted([list(x) for x in e[1]]), (e[2] or "").strip(),
            [c_elem(k) for k in e[3]], (e[4] if len(e) > 4 else "").strip()]


def c_meta(e, pair=False):
    if e is None:
        return None
    c = c_elem(e)
    c[4] = ""
    if pair and not c[1] and not c[2] and not c[3]:
        return None
    return c


def c_graph(g, default=None):
    nodes = []
    order = sorted(g["nodes"], key=lambda nd: nd["id"])
    for nd in order:
        x = dict(nd["x"])
        if default is not None and "pos" not in x:
            x["pos"] = default
        nodes.append([nd["id"], nd["label"], list(nd["tokens"]), x])
    edges = []
    for nd in order:
        for u, v, l in g["edges"]:
            if u == nd["id"]:
                edges.append([u, v, l])
    return {"id": g["id"], "tokens": list(g["tokens"]), "root": g["root"],
            "nodes": nodes, "edges": edges, "x": dict(g["x"])}


def expect(m, graphs=True, paths=None):
    "what a correct reader of the corpus shows"
    pairs = []
    for p in m["pairs"]:
        e = {"meta": c_meta(p["meta"], True), "align": sorted(p["align"]),
             "g": list(p["g"]),
             "b": [[paths[i] if paths else m["banks"][i]["path"],
                    m["banks"][i]["format"]] for i in p["b"]]}
        if graphs:
            e["graphs"] = [c_graph(graph_of(m, p, k),
                                   m["banks"][p["b"][k]].get("default"))
                           for k in (0, 1)]
        pairs.append(e)
    return {"relations": sorted(m["relations"]), "meta": c_meta(m["meta"]),
            "pairs": pairs}


def s_elem(e):
    return [e.tag, sorted([[k, v] for k, v in e.attrib.items()]),
            (e.text or "").strip(), [s_elem(k) for k in e],
            (e.tail or "").strip()]


def s_meta(e, pair=False):
    if e is None:
        return None
    c = s_elem(e)
    c[4] = ""
    if pair and not c[1] and not c[2] and not c[3]:
        return None
    return c


def s_graph(g):
    nodes = []
    for n in sorted(g.nodes()):
        d = g.node[n]
        x = dict((k, v) for k, v in d.items()
                 if k not in ("label", "tokens", "begin", "end") and
                 not k.endswith("_align"))
        nodes.append([n, d.get("label"), list(d.get("tokens", [])), x])
    edges = []
    # the edges of a node keep the order of the document
    for u in sorted(g.nodes()):
        for _, v, d in g.out_edges([u], data=True):
            edges.append([u, v, d.get("label")])
    x = dict((k, v) for k, v in g.graph.items()
             if k not in ("root", "tokens", "root_aligned", "failed",
                          "name") and
             not k.endswith("_align"))
    return {"id": g.id, "tokens": list(g.tokens), "root": g.root,
            "nodes": nodes, "edges": edges, "x": x}


def s_pair(p, graphs=True):
    e = {"meta": s_meta(p.get_meta_data(), True),
         "align": sorted([[n.source, n.target, r]
                          for n, r in p.alignments()]),
         "g": [p.get_graphs().source.id, p.get_graphs().target.id],
         "b": [[p.get_banks().source.get_file_path(),
                p.get_banks().source.get_format()],
               [p.get_banks().target.get_file_path(),
                p.get_banks().target.get_format()]]}
    if graphs:
        e["graphs"] = [s_graph(p.get_graphs().source),
                       s_graph(p.get_graphs().target)]
    return e


def snap(corpus, graphs=True):
    return {"relations": list(corpus.get_relations()),
            "meta": s_meta(corpus.get_meta_data()),
            "pairs": [s_pair(p, graphs) for p in corpus]}


# --------------------------------------------------------------------------
# independent reader of corpus files (through the real parser of Python 2)
# --------------------------------------------------------------------------

def parse_corpus(data, path):
    """
    an independent reading of a stored corpus -> like expect(graphs=False),
    plus the list of graphbank entries; None when it is not well formed
    """
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
    except Exception:
        return None
    if root.tag != "parallel_graph_corpus":
        return None
    d = posixpath.dirname(path)
    banks = {}
    entries = []
    rels = []
    meta = None
    pairs = []
    for k in root:
        if k.tag == "corpus_meta_data":
            meta = s_meta(k)
        elif k.tag == "graphbanks":
            for f in k:
                t = f.text.strip()
                p = t if t.startswith("/") else posixpath.normpath(
                    posixpath.join(d, t))
                banks[f.get("id")] = [p, f.get("format")]
                entries.append([f.get("id"), t, f.get("format")])
        elif k.tag == "node_relations":
            rels = [r.text.strip() for r in k]
        elif k.tag == "aligned_graphs":
            for g in k:
                e = {"meta": None, "align": [],
                     "g": [g.get("from_graph_id"), g.get("to_graph_id")],
                     "b": [banks.get(g.get("from_bank_id")),
                           banks.get(g.get("to_bank_id"))]}
                for x in g:
                    if x.tag == "graph_meta_data":
                        e["meta"] = s_meta(x, True)
                    else:
                        e["align"].append([x.get("from_node_id"),
                                           x.get("to_node_id"),
                                           x.get("relation")])
                e["align"].sort()
                pairs.append(e)
    return {"relations": rels, "meta": meta, "pairs": pairs,
            "entries": entries}


# --------------------------------------------------------------------------
# the stub for the graphbank format whose reader is not part of this
# repository (daeso_nl): only the public interface of the parser
# --------------------------------------------------------------------------

def alpino_stub(module):
    from daeso.exception import DaesoError
    from daeso.graph.daesograph import DaesoGraph

    class AlpinoGraph(DaesoGraph):

        def is_failed_parse(self):
            return self.graph.get("failed") == "1"

    class AlpinoParser(object):

        def parse_file(self, inf, id2graph=None, sparse=False):
            name = inf
            if not hasattr(inf, "read"):
                inf = open(inf)
            try:
                doc = json.loads(inf.read())
            finally:
                inf.close()
            if id2graph is None:
                id2graph = {}
            pos = 0
            for g in doc["graphs"]:
                gid = _a(g["id"])
                if sparse and gid not in id2graph:
                    continue
                graph = AlpinoGraph(id=gid, tokens=[_a(t) for t in g["tokens"]],
                                    root=_a(g["root"]))
                if g.get("failed"):
                    graph.graph["failed"] = "1"
                for k, v in g["x"].items():
                    graph.graph[_a(k)] = _a(v)
                for n, nd in enumerate(g["nodes"]):
                    x = dict((_a(k), _a(v)) for k, v in nd["x"].items())
                    x.update(begin=str(n), end=str(n + 1))
                    graph.add_node(_a(nd["id"]), label=_a(nd["label"]),
                                   tokens=[_a(t) for t in nd["tokens"]],
                                   attr_dict=x)
                for u, v, l in g["edges"]:
                    graph.add_edge(_a(u), _a(v), _a(l))
                id2graph[gid] = graph
            if sparse:
                missing = sorted(k for k, v in id2graph.items() if v is None)
                if missing:
                    raise DaesoError("graphs %s not found in %s"
                                     % (missing, name))
            return id2graph

    module.AlpinoParser = AlpinoParser
    module.AlpinoGraph = AlpinoGraph


def _a(x):
    if isinstance(x, unicode):
        try:
            return x.encode("ascii")
        except UnicodeError:
            return x
    return x


def install_stubs():
    import seams
    import types

    def package(m):
        pass
    seams.STUBS["daeso_nl"] = package
    seams.STUBS["daeso_nl.gb"] = package
    seams.STUBS["daeso_nl.gb.alpinoparser"] = alpino_stub


install_stubs()


# --------------------------------------------------------------------------
# independent reader of GraphML graphbanks
# --------------------------------------------------------------------------

def _local(tag):
    return tag.rpartition("}")[2]


def parse_graphml(data, wanted=None):
    """
    -> {graph id: canonical graph}, or None when it is not well formed or
    breaks one of the documented requirements
    """
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
    except Exception:
        return None
    if _local(root.tag) != "graphml":
        return None
    keys = {}
    defaults = {}
    out = {}
    for k in root:
        if _local(k.tag) == "key":
            for_ = k.get("for", "all")
            if for_ not in ("graph", "node", "edge", "all") or \
                    k.get("attr.name") is None or k.get("id") is None:
                return None
            keys[(for_, k.get("id"))] = k.get("attr.name")
            for d in k:
                if _local(d.tag) == "default":
                    defaults[(for_, k.get("id"))] = d.text or ""

    def attrs(e, for_):
        a = {}
        for (f, i), v in sorted(defaults.items()):
            if f in (for_, "all"):
                a[keys[(f, i)]] = v
        for d in e:
            if _local(d.tag) == "data":
                i = d.get("key")
                n = keys.get((for_, i), keys.get(("all", i)))
                if n is None:
                    raise KeyError(i)
                a[n] = d.text or ""
        return a

    try:
        for g in root:
            if _local(g.tag) != "graph":
                continue
            if wanted is not None and g.get("id") not in wanted:
                continue
            ga = attrs(g, "graph")
            nodes, edges = {}, []
            order = []
            for n in g:
                if _local(n.tag) == "node":
                    a = attrs(n, "node")
                    nid = n.attrib["id"]
                    label, toks = a.pop("label", ""), a.pop("tokens", None)
                    if not label or toks is None:
                        return None
                    if nid in nodes:
                        return None
                    nodes[nid] = [nid, label, toks.split(" "), a]
                elif _local(n.tag) == "edge":
                    a = attrs(n, "edge")
                    s, t = n.attrib["source"], n.attrib["target"]
                    edges.append([s, t, a.get("label")])
            if "tokens" not in ga:
                return None
            for s, t, _ in edges:
                if s not in nodes or t not in nodes:
                    # the parser adds such nodes, without label
                    raise KeyError(s)
            ids = sorted(nodes)
            toks = ga.pop("tokens").split()
            out[g.attrib["id"]] = {
                "id": g.attrib["id"], "tokens": toks,
                "root": ga.pop("root", None),
                "nodes": [nodes[i] for i in ids],
                "edges": [e for i in ids for e in edges if e[0] == i],
                "x": ga}
    except KeyError:
        return None
    return out
