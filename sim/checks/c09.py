# -*- coding: utf-8 -*-
"""
C09 editing histories: one-to-one alignment and list behaviour of corpora,
with sessions that end in a save, a failed save or a crash
"""
import copy
from lib import *
import model as M
import edits as E

SHRINK = ("ops", "model.pairs", "model.pairs.*.align")
SIMPLER = (("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("world.buf", [4096]))

NV = 4          # variables that hold corpora


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=2, maxgraphs=3, maxpairs=5, minpairs=1,
                    maxnodes=5)
    if rng.chance(0.5):
        # the same names on both sides
        for b in m["banks"]:
            for g in b["graphs"]:
                names = dict((n["id"], "n%d" % i)
                             for i, n in enumerate(g["nodes"]))
                for n in g["nodes"]:
                    n["id"] = names[n["id"]]
                g["edges"] = [[names[u], names[v], l] for u, v, l in g["edges"]]
                g["root"] = names.get(g["root"])
        for p in m["pairs"]:
            p["align"] = M.gen_align(rng, m, p)
    mix = rng.choice(["align", "list", "both"])
    w = [("align", 8), ("unalign", 4), ("badunalign", 1), ("query", 2),
         ("copypair", 1), ("pmeta", 1)]
    l = [("get", 1), ("slice", 3), ("eslice", 2), ("set", 2), ("setslice", 2),
         ("del", 2), ("delslice", 2), ("append", 2), ("extend", 1),
         ("insert", 2), ("pop", 2), ("remove", 1), ("index", 2), ("rev", 1),
         ("sort", 1), ("add", 2), ("iadd", 2), ("mul", 1), ("rmul", 1),
         ("imul", 1), ("clear", 1), ("deepcopy", 2), ("bad", 3), ("meta", 1),
         ("annot", 2), ("init", 1), ("cmp", 2), ("purge", 1)]
    t = [("save", 2), ("crash", 1), ("failsave", 1)]
    pool = {"align": w + t, "list": l + t, "both": w + l + t}[mix]
    ops = [[rng.weighted(pool)] + [rng.below(1 << 12) for _ in range(5)]
           for _ in range(rng.int(4, 30))]
    for op in ops:
        if op[0] == "pmeta":
            op.append(M.gen_meta(rng, "graph_meta_data"))
        elif op[0] == "meta":
            op.append(M.gen_meta(rng, "corpus_meta_data")
                      if rng.chance(0.8) else None)
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([64, 1024])}, "model": m, "ops": ops,
            "mode": rng.choice([1, 2, 3])}


class MP(object):
    "model of a graph pair"

    def __init__(self, p, align=None, meta=None):
        self.b, self.g = p["b"], p["g"]
        self.spec = p
        self.align = dict((s, (t, r)) for s, t, r in p["align"]) \
            if align is None else align
        self.meta = copy.deepcopy(p["meta"]) if align is None else meta
        self.real = None

    def copy(self):
        return MP(self.spec, dict(self.align), copy.deepcopy(self.meta))

    def add(self, s, t, r):
        for x in list(self.align):
            if x == s or self.align[x][0] == t:
                del self.align[x]
        self.align[s] = (t, r)

    def c(self):
        return [self.b, self.g, sorted([s, t, r] for s, (t, r) in
                                       self.align.items()),
                M.c_meta(self.meta, True)]

    def __eq__(self, other):
        return self.c() == other.c()

    def __ne__(self, other):
        return not self == other


class MC(object):
    "model of a corpus"

    def __init__(self, pairs, meta):
        self.pairs = list(pairs)
        self.meta = meta
        self.real = None


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    if not m["pairs"]:
        raise Discard()
    fs.mkdirs("/data/pgc")
    M.put_banks(fs, m)
    fs.put("/data/pgc/c.pgc", M.corpus_xml(m, "/data/pgc/c.pgc"))
    st = {"s": Session(w, "p0", "/work"), "v": [None] * NV, "n": 0,
          "saved": {}, "mode": plan["mode"], "fs": fs, "w": w, "m": m}

    def first():
        from daeso.pgc.corpus import ParallelGraphCorpus
        c = ParallelGraphCorpus()
        c.read("/data/pgc/c.pgc", graph_loading=plan["mode"])
        return c
    c = MC([MP(p) for p in m["pairs"]], copy.deepcopy(m["meta"]))
    bind(c, st["s"].must("load", first))
    st["v"][0] = c
    for op in plan["ops"]:
        if op[0] == "crash":
            crash(st)
        else:
            st["s"].must(op[0], apply, op, st)
        st["s"].must("check after " + op[0], check, st)
    st["s"].end()
    return {"nt": True}


def bind(c, real):
    c.real = real
    if len(real) != len(c.pairs):
        violate("length", "%d pairs, should be %d" % (len(real), len(c.pairs)))
    for mp, p in zip(c.pairs, list.__iter__(real)):
        mp.real = p


def crash(st):
    "the process is killed: what was saved is what is left"
    st["s"].p.dead = True
    st["s"].end()
    st["n"] += 1
    st["s"] = Session(st["w"], "p%d" % st["n"], "/work")
    st["v"] = [None] * NV
    saved = dict(st["saved"])
    saved["/data/pgc/c.pgc"] = None
    for n, path in enumerate(sorted(saved)[:NV]):
        def load():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            c.read(path, graph_loading=st["mode"])
            return c
        m = st["m"]
        if saved[path] is None:
            c = MC([MP(p) for p in m["pairs"]], copy.deepcopy(m["meta"]))
        else:
            old = saved[path]
            c = MC([p.copy() for p in old.pairs], copy.deepcopy(old.meta))
        bind(c, st["s"].must("load", load))
        st["v"][n] = c


def same_meta(a, b):
    return canon(M.c_meta(a)) == canon(M.c_meta(b))


def check(st):
    from daeso.pgc.corpus import ParallelGraphCorpus
    for c in st["v"]:
        if c is None:
            continue
        r = c.real
        if not isinstance(r, ParallelGraphCorpus):
            violate("type", "a corpus became a %s" % type(r).__name__)
        if len(r) != len(c.pairs):
            violate("length", "%d pairs, should be %d"
                    % (len(r), len(c.pairs)))
        for i, (p, mp) in enumerate(zip(r, c.pairs)):
            if p is not mp.real:
                violate("order", "another pair at %d" % i)
            if r[i] is not p:
                violate("order", "iteration and indexing differ")
        if [p for p in reversed(r)] != list(reversed([p for p in r])):
            violate("order", "reversed")
        if sorted(r.get_relations()) != sorted(st["m"]["relations"]):
            violate("relations", repr(r.get_relations()))
        if canon(M.s_meta(r.get_meta_data())) != canon(M.c_meta(c.meta)):
            violate("meta", "%s, should be %s" % (
                canon(M.s_meta(r.get_meta_data())), canon(M.c_meta(c.meta))))
        for mp in c.pairs:
            check_pair(mp, st["m"])


def check_pair(mp, m):
    p = mp.real
    al = sorted([n.source, n.target, r] for n, r in p.alignments())
    want = sorted([s, t, r] for s, (t, r) in mp.align.items())
    if al != want:
        violate("align", "alignments %r, should be %r" % (al, want))
    if len(p) != len(want):
        violate("align", "len() is %d, should be %d" % (len(p), len(want)))
    if canon(M.s_meta(p.get_meta_data(), True)) != \
            canon(M.c_meta(mp.meta, True)):
        violate("pair-meta", "")
    if [p.get_graphs().source.id, p.get_graphs().target.id] != mp.g:
        violate("graphs", "")
    if [b.get_file_path() for b in p.get_banks()] != \
            [m["banks"][i]["path"] for i in mp.b]:
        violate("banks", "")


def nodes(st, mp, k, n):
    ns = M.graph_of(st["m"], mp.spec, k)["nodes"]
    return ns[n % len(ns)]["id"]


def query(mp, st, rels):
    from daeso.pair import Pair
    p = mp.real
    inv = dict((t, s) for s, (t, r) in mp.align.items())
    for n in M.graph_of(st["m"], mp.spec, 0)["nodes"]:
        t = p.get_aligned_target_node(n["id"])
        want = mp.align.get(n["id"], (None, None))[0]
        if t != want:
            violate("query", "target of %s is %r, should be %r"
                    % (n["id"], t, want))
        for x in M.graph_of(st["m"], mp.spec, 1)["nodes"]:
            r = p.get_align(Pair(n["id"], x["id"]))
            want = mp.align.get(n["id"], (None, None))
            want = want[1] if want[0] == x["id"] else None
            if r != want:
                violate("query", "label of %s-%s is %r, should be %r"
                        % (n["id"], x["id"], r, want))
    for n in M.graph_of(st["m"], mp.spec, 1)["nodes"]:
        s = p.get_aligned_source_node(n["id"])
        if s != inv.get(n["id"]):
            violate("query", "source of %s is %r, should be %r"
                    % (n["id"], s, inv.get(n["id"])))
    if rels:
        al = sorted([n.source, n.target, r] for n, r in p.alignments(rels))
        want = sorted([s, t, r] for s, (t, r) in mp.align.items() if r in rels)
        if al != want:
            violate("query", "alignments(%r) gives %r, should be %r"
                    % (rels, al, want))
    if st["mode"] != 3:
        g = [M.graph_of(st["m"], mp.spec, k)["root"] for k in (0, 1)]
        got = bool(p.roots_aligned())
        want = None not in g and mp.align.get(g[0], (None,))[0] == g[1]
        if got != want:
            violate("query", "roots_aligned() is %r" % got)


def refused(fn, exc):
    try:
        fn()
    except exc:
        return
    except Exception, e:
        violate("refused", "%s instead of %r" % (type(e).__name__, exc))
    violate("refused", "accepted")


def apply(op, st):
    from daeso.pair import Pair
    from daeso.pgc.corpus import ParallelGraphCorpus
    k, a, b_, d, e, f = op[:6]
    vs = [c for c in st["v"] if c is not None]
    c = vs[a % len(vs)]
    o = vs[b_ % len(vs)]
    r = c.real
    n = len(c.pairs)
    m = st["m"]

    def keep(pairs, real, meta=None, src=c):
        x = MC(pairs, src.meta)
        x.real = real
        st["v"][f % NV] = x
        return x

    # ---- pairs
    if k in ("align", "unalign", "badunalign", "query", "copypair", "pmeta"):
        if not n:
            return
        mp = c.pairs[b_ % n]
        if k == "align":
            s, t = nodes(st, mp, 0, d), nodes(st, mp, 1, e)
            rel = m["relations"][f % len(m["relations"])]
            mp.real.add_align(Pair(s, t), rel)
            mp.add(s, t, rel)
        elif k == "unalign":
            if not mp.align:
                return
            s = sorted(mp.align)[d % len(mp.align)]
            mp.real.del_align(Pair(s, mp.align[s][0]))
            del mp.align[s]
        elif k == "badunalign":
            s, t = nodes(st, mp, 0, d), nodes(st, mp, 1, e)
            if mp.align.get(s, (None,))[0] != t:
                refused(lambda: mp.real.del_align(Pair(s, t)), Exception)
        elif k == "query":
            rels = sorted(set(m["relations"][x % len(m["relations"])]
                              for x in (d, e)))
            query(mp, st, rels if f % 3 else None)
        elif k == "copypair":
            x = mp.copy()
            x.real = copy.deepcopy(mp.real)
            if not (x.real == mp.real) or x.real != mp.real:
                violate("copy", "a copy of a pair is not equal to it")
            if x.real is mp.real:
                violate("copy", "no copy")
            c.pairs.append(x)
            r.append(x.real)
        else:
            mp.meta = op[6]
            mp.real.set_meta_data(E.mk_elem(op[6]))
        query(mp, st, None)
        return

    # ---- corpora
    i, j = d % (n + 3) - 1, e % (n + 3) - 1
    if f % 3 == 0:
        i, j = d % (2 * n + 6) - n - 3, e % (2 * n + 6) - n - 3
    if k == "get":
        if n:
            x = d % (2 * n) - n
            if r[x] is not c.pairs[x].real:
                violate("get", "[%d]" % x)
    elif k == "slice":
        keep(c.pairs[i:j], r[i:j])
    elif k == "eslice":
        step = [1, 2, -1, -2, 3][f % 5]
        keep(c.pairs[i:j:step], r[i:j:step])
    elif k == "set":
        if n and o.pairs:
            mp = o.pairs[e % len(o.pairs)]
            x = d % (2 * n) - n
            r[x] = mp.real
            c.pairs[x] = mp
    elif k == "setslice":
        other = o.real if o is not c else o.real[:]
        ps = list(o.pairs)
        r[i:j] = other
        c.pairs[i:j] = ps
    elif k == "del":
        if n:
            x = d % (2 * n) - n
            del r[x]
            del c.pairs[x]
    elif k == "delslice":
        if f % 2:
            del r[i:j]
            del c.pairs[i:j]
        else:
            step = [2, -1, 3][e % 3]
            del r[::step]
            del c.pairs[::step]
    elif k == "append":
        if o.pairs:
            mp = o.pairs[e % len(o.pairs)]
            r.append(mp.real)
            c.pairs.append(mp)
    elif k == "extend":
        ps = o.pairs[:3]
        r.extend(iter([mp.real for mp in ps]))
        c.pairs.extend(ps)
    elif k == "insert":
        if o.pairs:
            mp = o.pairs[e % len(o.pairs)]
            r.insert(i, mp.real)
            c.pairs.insert(i, mp)
    elif k == "pop":
        if n:
            if f % 2:
                x, y = r.pop(), c.pairs.pop()
            else:
                x = d % (2 * n) - n
                x, y = r.pop(x), c.pairs.pop(x)
            if x is not y.real:
                violate("pop", "another pair")
        else:
            refused(r.pop, IndexError)
    elif k in ("remove", "index"):
        if not o.pairs:
            return
        mp = o.pairs[e % len(o.pairs)]
        x = -1
        for x, y in enumerate(c.pairs):
            if y == mp:
                break
        else:
            x = -1
        if (mp.real in r) != (x >= 0):
            violate("in", "%r, should be %r" % (mp.real in r, x >= 0))
        cnt = len([y for y in c.pairs if y == mp])
        if r.count(mp.real) != cnt:
            violate("count", "%d, should be %d" % (r.count(mp.real), cnt))
        if x < 0:
            refused(lambda: (r.remove if k == "remove" else r.index)(mp.real),
                    ValueError)
        elif k == "remove":
            r.remove(mp.real)
            del c.pairs[x]
        else:
            if r.index(mp.real) != x:
                violate("index", "%d, should be %d" % (r.index(mp.real), x))
            later = [y for y in range(x + 1, n) if c.pairs[y] == mp]
            if later:
                if r.index(mp.real, x + 1) != later[0]:
                    violate("index", "from %d" % (x + 1))
            else:
                refused(lambda: r.index(mp.real, x + 1), ValueError)
    elif k == "rev":
        r.reverse()
        c.pairs.reverse()
    elif k == "sort":
        r.sort(key=lambda p: p.get_graphs().source.id, reverse=bool(f % 2))
        c.pairs.sort(key=lambda mp: mp.g[0], reverse=bool(f % 2))
    elif k == "add":
        if n + len(o.pairs) < 40:
            keep(c.pairs + o.pairs, r + o.real)
    elif k == "iadd":
        if n + len(o.pairs) < 40:
            ps = list(o.pairs)
            r += o.real if o is not c else o.real[:]
            if r is not c.real:
                violate("iadd", "another object")
            c.pairs += ps
    elif k in ("mul", "rmul"):
        x = d % 3
        if n * x < 40:
            keep(c.pairs * x, r * x if k == "mul" else x * r)
    elif k == "imul":
        x = d % 3
        if n * x < 40:
            r *= x
            if r is not c.real:
                violate("imul", "another object")
            c.pairs *= x
    elif k == "clear":
        r.clear()
        del c.pairs[:]
    elif k == "deepcopy":
        real = copy.deepcopy(r)
        memo = {}
        x = MC([memo.setdefault(id(mp), mp.copy()) for mp in c.pairs],
               copy.deepcopy(c.meta))
        bind(x, real)
        for y, z in zip(real, r):
            if y is z:
                violate("copy", "a pair is shared with the copy")
        if not (real == r) or real != r:
            violate("copy", "a copy is not equal to the original")
        rels = real.get_relations()
        rels.append("another")
        if "another" in r.get_relations():
            violate("copy", "the relations are shared with the copy")
        rels.remove("another")
        st["v"][f % NV] = x
    elif k == "init":
        real = ParallelGraphCorpus(r, r.get_relations(), r.get_meta_data())
        keep(list(c.pairs), real)
    elif k == "purge":
        r.purge()
    elif k == "meta":
        c.meta = op[6]
        r.set_meta_data(E.mk_elem(op[6]) if op[6] is not None else None)
    elif k == "annot":
        if c.meta is None:
            if r.get_annotator() is not None:
                violate("annotator", repr(r.get_annotator()))
            return
        el = [x for x in c.meta[3] if x[0] == "annotator"]
        if el and el[0][3]:
            return      # text mixed with elements: its spacing is layout
        app = bool(f % 3)
        name = ["ann", "bob", "x y"][e % 3]
        if not el:
            c.meta[3].append(["annotator", [], name, [], ""])
            el = c.meta[3][-1:]
        elif not el[0][2] or not app:
            el[0][2] = name
        else:
            el[0][2] += " + " + name
        r.set_annotator(name, append=app)
        if r.get_annotator() != el[0][2]:
            violate("annotator", "%r, should be %r"
                    % (r.get_annotator(), el[0][2]))
    elif k == "cmp":
        same = (len(c.pairs) == len(o.pairs) and
                all(x == y for x, y in zip(c.pairs, o.pairs)) and
                same_meta(c.meta, o.meta))
        if bool(r == o.real) != same or bool(r != o.real) == same:
            violate("equality", "== gives %r and != gives %r, should be %r"
                    % (r == o.real, r != o.real, same))
        other = ParallelGraphCorpus(r, r.get_relations() + ["no such"],
                                    r.get_meta_data())
        if r == other or not (r != other) or other == r:
            violate("equality", "corpora with different relations are equal")
        for x in c.pairs[:4]:
            for y in o.pairs[:4]:
                if bool(x.real == y.real) != (x == y) or \
                        bool(x.real != y.real) == (x == y):
                    violate("equality", "of pairs")
    elif k == "bad":
        x = [None, "pair", 3, [], Pair(1, 2)][d % 5]
        what = e % 9
        if what == 0:
            refused(lambda: r.append(x), TypeError)
        elif what == 1:
            refused(lambda: r.insert(0, x), TypeError)
        elif what == 2 and n:
            refused(lambda: r.__setitem__(0, x), TypeError)
        elif what == 3:
            def assign():
                r[0:1] = [x]
            refused(assign, TypeError)
        elif what == 4:
            refused(lambda: r + [x], TypeError)
        elif what == 5:
            def iadd():
                y = r
                y += [x]
            refused(iadd, TypeError)
        elif what == 6:
            other = ParallelGraphCorpus(r, r.get_relations() + ["no such"])
            refused(lambda: r + other, ValueError)

            def iadd2():
                y = r
                y += other
            refused(iadd2, ValueError)

            def assign2():
                r[0:1] = other
            refused(assign2, ValueError)
        elif what == 7:
            refused(lambda: r[n], IndexError)
            refused(lambda: r.pop(n), IndexError)
            refused(lambda: r[-n - 1], IndexError)
            refused(lambda: r.pop(-n - 1), IndexError)

            def assign3():
                r[n] = o.real[0]

            def assign5():
                r[-n - 1 - d % 3] = o.real[0]
            if o.pairs:
                refused(assign3, IndexError)
                refused(assign5, IndexError)

            def dele():
                del r[-n - 1]
            refused(dele, IndexError)
        else:
            def assign4():
                r[::2] = o.real if o is not c else o.real[:]
            if len(range(0, n, 2)) != len(o.pairs):
                refused(assign4, ValueError)
    elif k in ("save", "failsave"):
        path = "/work/s%d.pgc" % (e % 3)
        if k == "failsave":
            # the disk is full
            st["w"].quota = d % 400
            out = None
            try:
                r.write(path)
                out = "ok"
            except (IOError, OSError):
                pass
            st["w"].quota = None
            if out != "ok":
                return
        else:
            r.write(path)
        st["saved"][path] = MC([mp.copy() for mp in c.pairs],
                               copy.deepcopy(c.meta))
    else:
        raise HarnessError(k)
