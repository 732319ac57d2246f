# -*- coding: utf-8 -*-
"""
C07 each graphbank file is listed once and every pair refers to the right one
"""
import copy
import posixpath
from lib import *
import model as M

SHRINK = ("parts", "parts.*.pairs", "model.pairs", "ops", "missing", "model.pairs.*.align",
          "model.banks.*.graphs")
SIMPLER = (("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("abs", [False]), ("world.buf", [4096]))

D = ["/data/pgc", "/work", "/data"]


def gen(rng, tier):
    big = rng.chance(0.06)
    m = M.gen_model(rng, maxbanks=16 if big else 4, maxgraphs=2,
                    maxpairs=24 if big else 7, minpairs=2,
                    maxnodes=3, meta=rng.chance(0.3),
                    dirs=["/data/gb", "/data/gb/x", "/srv", "/data/pgc"])
    names = []
    for b in m["banks"]:
        d, f = posixpath.split(b["path"])
        alias = [b["path"]]
        alias.append("/lnk/%s/%s" % (d.strip("/").replace("/", "-"), f))
        if rng.chance(0.4):
            alias.append("/hard/" + d.strip("/").replace("/", "-") + "-" + f)
        if rng.chance(0.4):
            alias.append(d + "/ln-" + f)
        names.append(alias)
    n = rng.int(1, 4)
    parts = []
    for i in range(n):
        parts.append({"pairs": sorted(rng.below(64)
                                      for _ in range(rng.int(1, 20 if big else 5))),
                      "names": [rng.below(8) for _ in m["banks"]],
                      "mode": rng.choice([1, 2, 2, 3, 3]),
                      "dir": rng.choice(D), "style": M.gen_style(rng),
                      "save": rng.chance(0.5),
                      "fmt": rng.chance(0.15),
                      "double": rng.below(16) if rng.chance(0.2) else None})
    ops = [rng.choice(["purge", "purge1", "save", "rev", "dup", "del"])
           for _ in range(rng.below(4))]
    return {"world": {"seed": rng.below(1 << 30), "buf": 1024},
            "model": m, "names": names, "parts": parts, "ops": ops,
            "join": rng.choice(["add", "extend", "append", "iadd", "insert"]),
            "missing": [i for i in range(len(m["banks"]))
                        if rng.chance(0.15)],
            "late": rng.chance(0.5),
            "out": rng.choice(D), "abs": rng.chance(0.4),
            "cwd": rng.choice(D), "rel": rng.chance(0.3)}


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    for d in D + ["/lnk", "/hard"]:
        fs.mkdirs(d)
    if not m["pairs"]:
        raise Discard()
    M.put_banks(fs, m)
    for b, alias in zip(m["banks"], plan["names"]):
        d, f = posixpath.split(b["path"])
        for a in alias[1:]:
            ad = posixpath.dirname(a)
            if a.startswith("/lnk/"):
                if fs.lookup(ad, False) is None:
                    fs.symlink(d, ad)
            elif a.startswith("/hard/"):
                node = fs.lookup(b["path"])
                fs.root.entries["hard"].entries[posixpath.basename(a)] = node
            else:
                fs.symlink(f, a)
    s = Session(w, "p", plan["cwd"])
    corpora = []
    want = []
    gone = [i for i in plan["missing"] if i < len(m["banks"])]
    usable = dict((i, True) for i in range(len(m["banks"])))
    if not plan["late"]:
        vanish(fs, plan, gone)
    for n, part in enumerate(plan["parts"]):
        ps = [m["pairs"][i % len(m["pairs"])] for i in part["pairs"]]
        mode = part["mode"]
        if not plan["late"] and gone and mode != 3:
            mode = 3
        pm = dict(m, pairs=ps)
        if part.get("fmt"):
            # the case of the format makes no difference
            pm["banks"] = [dict(b, format="GraphML") for b in m["banks"]]
        path = "%s/part%d.pgc" % (part["dir"], n)
        texts = []
        for i, alias in enumerate(plan["names"]):
            a = alias[part["names"][i] % len(alias)]
            if i in gone:
                # the same missing file, at most through a linked directory
                a = alias[part["names"][i] % 2]
            if not part["style"]["abs"]:
                a = posixpath.relpath(a, part["dir"])
            texts.append(a)
        if part.get("double") is not None:
            # the file lists a graphbank twice; for sources and for targets
            i = part["double"] % len(m["banks"])
            d = len(m["banks"])
            pm["banks"] = pm["banks"] + [pm["banks"][i]]
            pm["pairs"] = [dict(p, b=[p["b"][0], d]) if p["b"][1] == i else p
                           for p in ps]
            texts.append(texts[i])
        fs.put(path, M.corpus_xml(pm, path, part["style"], texts))

        def load():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            c.read(path, graph_loading=mode)
            return c
        corpora.append([s.must("load", load), ps])
    if plan["late"]:
        vanish(fs, plan, gone)

    # corpora that say the same in other words are equal
    def compare():
        for i, (c, ps) in enumerate(corpora):
            for j, (e, qs) in enumerate(corpora):
                same = len(ps) == len(qs) and all(
                    p is q or eqpair(p, q) for p, q in zip(ps, qs))
                if bool(c == e) != same or bool(c != e) == same:
                    violate("equality", "corpora %d and %d: == gives %r, != "
                            "gives %r, should be %r"
                            % (i, j, c == e, c != e, same))
                for p, pm in zip(c, ps):
                    for q, qm in zip(e, qs):
                        for k in (0, 1):
                            x, y = list(p.get_banks())[k], \
                                list(q.get_banks())[k]
                            one = pm["b"][k] == qm["b"][k]
                            if bool(x == y) != one or bool(x != y) == one:
                                violate("equality", "graphbanks %r and %r: "
                                        "== gives %r, != gives %r"
                                        % (x.get_file_path(),
                                           y.get_file_path(), x == y, x != y))
    s.must("compare", compare)
    for (c, ps), part in zip(corpora, plan["parts"]):
        if part.get("save"):
            save(plan, s, fs, c, ps, m)
    whole = corpora[0][0]
    pairs = list(corpora[0][1])
    for c, ps in corpora[1:]:
        def join(whole):
            k = plan["join"]
            if k == "add":
                return whole + c
            if k == "iadd":
                whole += c
            elif k == "extend":
                whole.extend(c)
            elif k == "append":
                for p in c:
                    whole.append(p)
            else:
                for p in c:
                    whole.insert(len(whole), p)
            return whole
        whole = s.must("join", join, whole)
        pairs += ps
    for k in plan["ops"]:
        if k == "purge":
            s.must("purge", whole.purge)
            s.must("purged", purged, whole, pairs, m)
        elif k == "purge1" and pairs:
            n = 0
            for x, p in enumerate(pairs):
                if p["b"][0] == p["b"][1]:
                    n = x
            s.must("purge", lambda: whole.purge(whole[n]))
            s.must("purged", purged, [whole[n]], [pairs[n]], m)
        elif k == "rev":
            s.must("reverse", whole.reverse)
            pairs.reverse()
        elif k == "dup" and pairs:
            s.must("dup", lambda: whole.append(copy.deepcopy(whole[-1])))
            pairs.append(pairs[-1])
        elif k == "del" and pairs:
            def dele():
                del whole[0]
            s.must("del", dele)
            del pairs[0]
        elif k == "save":
            save(plan, s, fs, whole, pairs, m)
    save(plan, s, fs, whole, pairs, m)
    s.must("purge", whole.purge)
    s.must("purged", purged, whole, pairs, m)
    save(plan, s, fs, whole, pairs, m)
    s.end()
    return {"nt": len(plan["parts"]) > 1}


def vanish(fs, plan, gone):
    for i in gone:
        for a in plan["names"][i]:
            if not a.startswith("/lnk/"):
                try:
                    fs.unlink(a)
                except OSError:
                    pass


def eqpair(p, q):
    return (p["b"] == q["b"] and p["g"] == q["g"] and p["align"] == q["align"]
            and canon(M.c_meta(p["meta"], True)) ==
            canon(M.c_meta(q["meta"], True)))


def purged(c, pairs, m):
    objs = {}
    for p, pm in zip(c, pairs):
        for k in (0, 1):
            b = list(p.get_banks())[k]
            if objs.setdefault(pm["b"][k], b) is not b:
                violate("purge", "two objects for %s after purging"
                        % m["banks"][pm["b"][k]]["path"])
            if list(p.get_graphs())[k].id != pm["g"][k]:
                violate("purge", "another graph")
    if len(set(id(b) for b in objs.values())) != len(objs):
        violate("purge", "one object for different graphbanks")


def save(plan, s, fs, c, pairs, m):
    path = plan["out"] + "/out.pgc"
    name = posixpath.relpath(path, plan["cwd"]) if plan["rel"] else path
    s.must("save", lambda: c.write(name, abs_path=plan["abs"]))
    doc = M.parse_corpus(fs.get(path), path)
    if doc is None:
        violate("not-well-formed", "")
    entries = doc["entries"]
    ids = [e[0] for e in entries]
    if len(set(ids)) != len(ids):
        violate("ids", "ids of graphbanks are not unique: %r" % ids)

    ino = {}
    for i, alias in enumerate(plan["names"]):
        node = fs.lookup(alias[0])
        for a in alias:
            ino[a] = i
            ino[real(fs, a)] = i

    def which(p):
        "the number of the graphbank that a path means"
        p = real(fs, p)
        if p not in ino:
            violate("entry", "entry for %s, which is no graphbank" % p)
        return ino[p]
    found = []
    for _, text, fmt in entries:
        if text.startswith("/") != plan["abs"]:
            violate("path-style", text)
        p = text if text.startswith("/") else posixpath.join(
            posixpath.dirname(path), text)
        i = which(posixpath.normpath(p))
        found.append(i)
        if fmt.lower() != m["banks"][i]["format"]:
            violate("format", fmt)
    if len(set(found)) != len(found):
        violate("twice", "a graphbank is listed more than once: %r" % entries)
    used = set()
    for p in pairs:
        used.update(p["b"])
    if set(found) != used:
        violate("entries", "listed %r, used %r" % (sorted(found),
                                                   sorted(used)))
    if len(doc["pairs"]) != len(pairs):
        violate("pairs", "%d pairs" % len(doc["pairs"]))
    for n, (g, p) in enumerate(zip(doc["pairs"], pairs)):
        if None in g["b"]:
            violate("reference", "pair %d refers to no entry" % (n + 1))
        b = [which(x[0]) for x in g["b"]]
        if b != p["b"] or g["g"] != p["g"]:
            violate("reference", "pair %d refers to %r %r, not %r %r"
                    % (n + 1, b, g["g"], p["b"], p["g"]))
        if g["align"] != sorted(p["align"]):
            violate("align", first_diff(p["align"], g["align"]))


def real(fs, path):
    "resolve links, also for a file that is gone"
    d, f = posixpath.split(path)
    node = fs.lookup(path, False)
    if node is not None and node.kind == "l":
        return real(fs, posixpath.join(d, node.target))
    # the real name of the directory
    names = []
    n = fs.lookup(d)
    while n is not None and n is not fs.root:
        for k, v in n.parent.entries.items():
            if v is n:
                names.append(k)
                break
        n = n.parent
    return "/" + "/".join(list(reversed(names)) + [f])
