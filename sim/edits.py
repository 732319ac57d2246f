# -*- coding: utf-8 -*-
"""
Editing operations on a corpus, on the model and on the real object.
"""

import copy

import model as M


def mk_elem(e):
    "a real Element from its spec"
    import xml.etree.cElementTree as et
    x = et.Element(e[0], dict((k, v) for k, v in e[1]))
    x.text = e[2] or None
    x.tail = (e[4] if len(e) > 4 else "") or None
    for k in e[3]:
        x.append(mk_elem(k))
    return x


def gen_edit(rng, m, uni=True):
    kind = rng.weighted([("align", 6), ("unalign", 3), ("del", 2), ("pop", 1),
                         ("dup", 2), ("rev", 1), ("meta", 1), ("pmeta", 2),
                         ("slice", 1), ("newpair", 2)])
    i = rng.below(50)
    if kind == "align":
        return ["align", i, rng.below(50), rng.below(50), rng.below(50)]
    if kind == "unalign":
        return ["unalign", i, rng.below(50)]
    if kind in ("del", "pop", "dup"):
        return [kind, i]
    if kind == "rev":
        return ["rev"]
    if kind == "meta":
        return ["meta", M.gen_meta(rng, "corpus_meta_data", uni)
                if rng.chance(0.8) else None]
    if kind == "pmeta":
        return ["pmeta", i, M.gen_meta(rng, "graph_meta_data", uni)]
    if kind == "slice":
        return ["slice", rng.below(4), rng.int(1, 8)]
    return ["newpair", rng.bits() % (1 << 30)]


def apply_m(m, op):
    "-> a description for the real object, or None when it cannot be done"
    k = op[0]
    ps = m["pairs"]
    if k in ("align", "unalign", "del", "pop", "dup", "pmeta") and not ps:
        return None
    if k == "align":
        i = op[1] % len(ps)
        p = ps[i]
        s = M.graph_of(m, p, 0)["nodes"]
        t = M.graph_of(m, p, 1)["nodes"]
        s = s[op[2] % len(s)]["id"]
        t = t[op[3] % len(t)]["id"]
        r = m["relations"][op[4] % len(m["relations"])]
        align_m(p, s, t, r)
        return ["align", i, s, t, r]
    if k == "unalign":
        i = op[1] % len(ps)
        p = ps[i]
        if not p["align"]:
            return None
        a = sorted(p["align"])[op[2] % len(p["align"])]
        p["align"].remove(a)
        return ["unalign", i, a[0], a[1]]
    if k in ("del", "pop"):
        i = op[1] % len(ps)
        del ps[i]
        return [k, i]
    if k == "dup":
        i = op[1] % len(ps)
        ps.append(copy.deepcopy(ps[i]))
        return ["dup", i]
    if k == "rev":
        ps.reverse()
        return op
    if k == "meta":
        m["meta"] = op[1]
        return op
    if k == "pmeta":
        i = op[1] % len(ps)
        ps[i]["meta"] = op[2]
        return ["pmeta", i, op[2]]
    if k == "slice":
        m["pairs"] = ps[op[1]:op[2]]
        return op
    if k == "newpair":
        from prng import Rng
        p = M.gen_pair(Rng("newpair", op[1]), m)
        if p is None:
            return None
        ps.append(p)
        return ["newpair", p]
    raise ValueError(k)


def align_m(p, s, t, r):
    "one-to-one: a new alignment takes both nodes away from their partners"
    p["align"] = [a for a in p["align"] if a[0] != s and a[1] != t]
    p["align"].append([s, t, r])
    p["align"].sort()


def apply_c(corpus, op, m, banks=None):
    """
    the same on the real object; -> the corpus to go on with.  op is what
    apply_m returned.
    """
    from daeso.pair import Pair
    k = op[0]
    if k == "align":
        corpus[op[1]].add_align(Pair(op[2], op[3]), op[4])
    elif k == "unalign":
        corpus[op[1]].del_align(Pair(op[2], op[3]))
    elif k == "del":
        del corpus[op[1]]
    elif k == "pop":
        corpus.pop(op[1])
    elif k == "dup":
        corpus.append(copy.deepcopy(corpus[op[1]]))
    elif k == "rev":
        corpus.reverse()
    elif k == "meta":
        corpus.set_meta_data(mk_elem(op[1]) if op[1] is not None else None)
    elif k == "pmeta":
        corpus[op[1]].set_meta_data(mk_elem(op[2]))
    elif k == "slice":
        return corpus[op[1]:op[2]]
    elif k == "newpair":
        corpus.append(build_pair(op[1], m, banks))
    else:
        raise ValueError(k)
    return corpus


def load_banks(m, which=None):
    from daeso.gb.graphbank import GraphBank
    banks = {}
    for i, b in enumerate(m["banks"]):
        if which is None or i in which:
            gb = GraphBank(b["path"], b["format"])
            gb.load()
            banks[i] = gb
    return banks


def build_pair(p, m, banks):
    from daeso.pair import Pair
    from daeso.pgc.graphpair import GraphPair
    if banks is None:
        banks = load_banks(m, p["b"])
    bs = Pair(banks[p["b"][0]], banks[p["b"][1]])
    gs = Pair(bs.source.get_graph(p["g"][0]), bs.target.get_graph(p["g"][1]))
    gp = GraphPair(bs, gs, meta_data=None if p["meta"] is None
                   else mk_elem(p["meta"]))
    for s, t, r in p["align"]:
        gp.add_align(Pair(s, t), r)
    return gp


def build_corpus(m):
    from daeso.pgc.corpus import ParallelGraphCorpus
    banks = load_banks(m)
    return ParallelGraphCorpus(
        [build_pair(p, m, banks) for p in m["pairs"]],
        relations=list(m["relations"]),
        meta_data=None if m["meta"] is None else mk_elem(m["meta"]))
