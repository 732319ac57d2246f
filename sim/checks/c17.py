# -*- coding: utf-8 -*-
"""
C17 corpora derived from parallel texts pair the right graphs
"""
import posixpath
from lib import *
import model as M
import ptcm as T

SHRINK = ("faults", "docs", "docs.*.links", "docs.*.doc.sides.0.elems",
          "docs.*.doc.sides.1.elems", "docs.*.texts.0.3", "docs.*.texts.1.3",
          "damage")
SIMPLER = (("docs.*.style", [M.PLAINSTYLE]), ("docs.*.tstyle", [M.PLAINSTYLE]),
           ("docs.*.doc.font", [[]]), ("quota", [None]),
           ("world.buf", [4096]), ("maxlen", [None]), ("mindiff", [None]),
           ("rels", [None]))

D = ["/data/ptc", "/data", "/work"]
TAGS = ["s", "s", "s", "p", "head", "w"]


def gen(rng, tier):
    api = rng.chance(0.25)
    tags = [rng.choice(TAGS), rng.choice(TAGS)] if rng.chance(0.3) else None
    if tags and rng.chance(0.5):
        tags[1] = tags[0]
    docs = []
    for i in range(1 if api else rng.int(1, 3)):
        texts = [T.gen_text(rng, rng.choice(["", "a", "b."]), leafs=False,
                            maxp=rng.choice([3, 6]), maxs=rng.choice([2, 4]))
                 for _ in range(2)]
        links = [[rng.below(64), rng.below(64), rng.chance(0.85)]
                 for _ in range(rng.choice([0, 2, 5, 12]))]
        if rng.chance(0.6):
            rich(rng, texts)
        if rng.chance(0.4):
            near(rng, texts)
            for l in links:
                if rng.chance(0.7):
                    l[1] = l[0]
        doc = T.gen_doc(rng)
        doc["method"] = rng.weighted([("id", 9), ("n", 1), (None, 1)])
        docs.append({"doc": doc, "texts": texts,
                     "links": links,
                     "style": M.gen_style(rng), "tstyle": M.gen_style(rng),
                     "dir": rng.choice(D), "same": rng.chance(0.05),
                     "seed": rng.below(1 << 16),
                     "name": rng.choice(["d%d.ptc", "a b%d.hit.xml", "x%d"])
                     % i,
                     "how": [rng.choice(["abs", "abs", "rel", "beside",
                                         "moved"]) for _ in range(2)],
                     "tnames": ["t%d-from.xml" % i, "t%d to.xml" % i],
                     "gdir": [rng.choice(["/data/gb", "/data", "/work/x"])
                              for _ in range(2)],
                     "one": rng.chance(0.08)})
    damage = []
    if rng.chance(0.3):
        damage = [[rng.choice(["text", "trunc", "badid", "notag", "noref",
                               "nograph", "nobank", "bank", "doc", "format",
                               "missing doc"]),
                   rng.below(8), rng.below(2), rng.below(1 << 16)]]
    # limits around the actual values
    lens, diffs = [0, 1, 3], [0, 1, 2, 5]
    for x in docs:
        es = [[e for e in T.elems(t) if e[0] == g]
              for t, g in zip(x["texts"], tags or ["s", "s"])]
        for a, b, on in x["links"]:
            if es[0] and es[1]:
                f, t = [T.tokens(e[k % len(e)][3])
                        for e, k in zip(es, (a, b))]
                lens += [max(len(f), len(t)), max(len(f), len(t)) - 1]
                diffs += [diff(f, t), diff(f, t) + 1]
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 4096])},
            "api": api, "docs": docs, "cwd": rng.choice(D),
            "rel": rng.chance(0.4), "damage": damage,
            "tags": tags, "formats": [rng.choice(["alpino", "graphml"])
                                      for _ in range(2)],
            "rels": rng.choice([None, None, ["equals"],
                                ["specifies", "own rel", "equals"]]),
            "maxlen": rng.choice([None, None, None, max(rng.choice(lens), 0)]),
            "mindiff": rng.choice([None, rng.choice(diffs), rng.choice(diffs)]),
            "stale": rng.chance(0.3), "faults": [], "quota": None}


def rich(rng, texts):
    "longer sentences over few words"
    words = ["de", "De"] + rng.sample(["man", u"\u03b1\u03b2\u03b1", "x", ".",
                                       u"caf\xe9"], 2)
    for t in texts:
        for e in T.walk(t):
            if e[2] and rng.chance(0.7):
                e[2] = " ".join(rng.choice(words)
                                for _ in range(rng.int(2, 7)))


def near(rng, texts):
    "sentences that differ a little"
    texts[1] = norm(texts[0])
    for e in T.walk(texts[1]):
        if e[2] and rng.chance(0.5):
            words = e[2].split()
            k = rng.below(6)
            if k == 5:
                words = [rng.choice([u"\u03b1\u03b2\u03b1", u"caf\xe9"])
                         for x in words]
            elif k == 0:
                words = words[:1] * 3 + words
            elif k == 4:
                words.append(rng.choice(words))
            elif k == 1:
                i = rng.below(len(words))
                words[i:i + 1] = ["other"] * rng.int(1, 3)
            elif k == 2 and len(words) > 1:
                del words[rng.below(len(words))]
            else:
                words = [x.upper() for x in words]
            e[2] = " ".join(words)
        e[1] = [[k, "t" + v if k == "id" else v] for k, v in e[1]]


def faults(rng, plan, base, tier):
    st = base["steps"]["p"]
    out = []
    for _ in range(3 if tier == "quick" else 20):
        p = norm(plan)
        k = rng.weighted([("crash", 3), ("err", 6), ("full", 2), ("short", 1),
                          ("intr", 1)])
        if k == "full":
            p["quota"] = rng.below(rng.choice([30, 300, 1500]))
        elif k == "short":
            p["faults"] = shorts(rng, 1)
        else:
            p["faults"] = [place(rng, st, (k,))]
        out.append(p)
    return out


def diff(a, b):
    return len([x for x in a if x not in b]) + len([x for x in b
                                                     if x not in a])


def setup(plan, w, i, x):
    "write one document with its texts and graphbanks; -> what is there"
    fs = w.fs
    tags = plan["tags"] or ["s", "s"]
    cwd = plan["cwd"]
    rng = Rng("c17", x["seed"])
    path = "%s/%s" % (x["dir"], x["name"])
    if x["same"]:
        path = "%s/same.%d" % (x["dir"], i)
    d = norm(x["doc"])
    tpaths = []
    for k in (0, 1):
        tp = "/data/texts/" + x["tnames"][k]
        how = x["how"][k]
        if how == "abs":
            d["sides"][k]["file"] = tp
        elif how == "rel":
            d["sides"][k]["file"] = posixpath.relpath(tp, cwd)
        elif how == "beside":
            d["sides"][k]["file"] = posixpath.relpath(tp, x["dir"])
        else:
            tp = "%s/%s" % (x["dir"], x["tnames"][k])
            d["sides"][k]["file"] = "/gone/" + x["tnames"][k]
        fs.put(tp, M.Ser(x["tstyle"]).doc(x["texts"][k]))
        tpaths.append(tp)
    es = [T.elems(t) for t in x["texts"]]
    focus = [[e for e in es[k] if e[0] == tags[k]] for k in (0, 1)]
    one = x["one"] and plan["formats"][0] == plan["formats"][1]
    links, pairs = [], []
    bad = None
    method = d["method"]
    for a, b, hit in x["links"]:
        if hit and focus[0] and focus[1]:
            f, t = focus[0][a % len(focus[0])], focus[1][b % len(focus[1])]
        else:
            f, t = es[0][a % len(es[0])], es[1][b % len(es[1])]
        on = f[0] == tags[0] and t[0] == tags[1]
        if method == "id":
            if f[2] is None or t[2] is None or (one and on and f[2] == t[2]):
                continue
            links.append([["from_tag", f[0]], ["from_id", f[2]],
                          ["to_tag", t[0]], ["to_id", t[2]]])
        else:
            links.append([["from_tag", f[0]], ["from_n", str(f[1])],
                          ["to_tag", t[0]], ["to_n", str(t[1])]])
            if on:
                # the method must be "id"
                bad = bad or "method"
                continue
        if on:
            ft, tt = T.tokens(f[3]), T.tokens(t[3])
            m = plan["maxlen"]
            skip = m is not None and (len(ft) > m or len(tt) > m) or \
                plan["mindiff"] and diff(ft, tt) < plan["mindiff"]
            pairs.append([f[2], t[2], bool(skip), len(links) - 1])
    # graphs of all elements, and of some others
    banks = []
    for k in (0, 1):
        if one and k:
            banks.append(banks[0])
            continue
        ids = set()
        for kk in (0, 1) if one else (k,):
            ids.update(e[2] for e in es[kk] if e[2] is not None)
        ids.update(["extra", "zz.1"])
        ids = sorted(ids)
        rng.shuffle(ids)
        o = {"maxnodes": 2}
        banks.append({"path": "%s/gb%d%s.xml" % (x["gdir"][k], i, "st"[k]),
                      "format": plan["formats"][k],
                      "graphs": [M.gen_graph(rng, g, o) for g in ids]})
    return {"i": i, "path": path, "d": d, "x": x, "t": tpaths, "links": links,
            "pairs": pairs, "banks": banks, "bad": bad, "one": one,
            "gone": [], "raw": {}}


def damage(plan, fs, e, k, side, a):
    used = [p for p in e["pairs"] if not p[2]]
    sd = T.SIDES[side]
    if k == "text":
        e["gone"].append(e["t"][side])
    elif k == "missing doc":
        e["gone"].append(e["path"])
    elif k == "trunc":
        data = fs.get(e["t"][side])
        e["raw"][e["t"][side]] = data[:a % (len(data.rstrip()) - 1)]
    elif k == "doc":
        e["raw"][e["path"]] = a
    elif k == "nobank":
        e["gone"].append(e["banks"][side]["path"])
    elif k == "bank":
        e["raw"][e["banks"][side]["path"]] = a
    elif k == "format":
        if plan["formats"][0] == plan["formats"][1]:
            return
        e["banks"] = [dict(b) for b in e["banks"]]
        e["raw"][e["banks"][side]["path"]] = "other"
    elif k == "nograph":
        if not used:
            return
        gid = used[a % len(used)][side]
        e["banks"][side]["graphs"] = [g for g in e["banks"][side]["graphs"]
                                      if g["id"] != gid]
    elif e["pairs"] and e["d"]["method"] == "id":
        n = e["pairs"][a % len(e["pairs"])][3]
        l = [list(y) for y in e["links"][n]]
        for y in l:
            if k == "badid" and y[0] == sd + "_id":
                y[1] = "no-such-id"
            elif k == "noref" and y[0] == sd + "_id":
                y[0] = "other"
            elif k == "notag" and y[0] == sd + "_tag":
                y[1] = "bogus"      # just another tag
        e["links"][n] = l
        if k == "notag":
            e["pairs"] = [p for p in e["pairs"] if p[3] != n]
            return
        if k == "noref" and any(
                z[0] == (plan["tags"] or ["s", "s"])[side] and z[2] is None
                for z in T.elems(e["x"]["texts"][side])):
            # the element without id may be too long or similar
            e["lax"] = True
    else:
        return
    e["bad"] = k


def prepare(plan, w):
    "write all documents, texts and graphbanks"
    fs = w.fs
    for x in D + ["/data/texts", "/data/gb", "/work/x"]:
        fs.mkdirs(x)
    cwd = plan["cwd"]
    docs = [setup(plan, w, i, x) for i, x in enumerate(plan["docs"])]
    for k, n, side, a in plan["damage"]:
        damage(plan, fs, docs[n % len(docs)], k, side, a)
    for e in docs:
        e["d"]["links"] = e["links"]
        fs.put(e["path"], T.doc_xml(e["d"], e["x"]["style"]))
        for b in e["banks"]:
            fs.put(b["path"], M.bank_file(b, M.PLAINSTYLE))
        for p, a in sorted(e["raw"].items()):
            if a == "other":
                b = [b for b in e["banks"] if b["path"] == p][0]
                f = {"alpino": "graphml", "graphml": "alpino"}[b["format"]]
                a = M.bank_file(dict(b, format=f), M.PLAINSTYLE)
            elif isinstance(a, int):
                data = fs.get(p)
                a = data[:a % (len(data.rstrip()) - 1)]
            fs.put(p, a)
        for p in e["gone"]:
            if fs.get(p) is not None:
                fs.unlink(p)
        e["out"] = "%s/%s.pgc" % (cwd, posixpath.splitext(
            posixpath.basename(e["path"]))[0])
        rels = plan["rels"] or \
            ["equals", "restates", "specifies", "generalizes", "intersects"]
        m = {"relations": rels, "banks": e["banks"], "meta": None,
             "pairs": [{"b": [0, 1], "g": p[:2], "align": [], "meta": None}
                       for p in e["pairs"] if not p[2]]}
        e["m"] = m
        e["lax"] = e.get("lax") or e["bad"] == "method" and \
            (plan["maxlen"] is not None or plan["mindiff"])
    return docs


def arguments(plan, docs):
    "the command line of pgc_from_ptc"
    cwd = plan["cwd"]
    name = lambda p: posixpath.relpath(p, cwd) if plan["rel"] else p
    argv = ["-p"] + [name(e["path"]) for e in docs]
    for k, o in enumerate(["-s", "-t"]):
        argv += [o] + [name(e["banks"][k]["path"]) for e in docs]
    argv += ["--source-format", plan["formats"][0],
             "--target-format", plan["formats"][1]]
    if plan["tags"]:
        argv += ["--source-tag", plan["tags"][0], "--target-tag",
                 plan["tags"][1]]
    if plan["rels"]:
        argv += ["--relations"] + plan["rels"]
    if plan["maxlen"] is not None:
        argv += ["--max-token-len", str(plan["maxlen"])]
    if plan["mindiff"] is not None:
        argv += ["--min-token-diff", str(plan["mindiff"])]
    return argv


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    docs = prepare(plan, w)
    cwd = plan["cwd"]
    if plan["api"]:
        return run_api(plan, w, docs[0])
    for e in docs:
        if plan["stale"]:
            fs.put(e["out"], "<stale/>")
        e["was"] = fs.get(e["out"])
    before = fs.listing()
    argv = arguments(plan, docs)
    w.quota = plan["quota"]
    out, proc = tool(w, "pgc_from_ptc.py", argv, "tool", cwd, plan["faults"])
    steps = marks(proc)
    w.quota = None
    good = out.kind in ("ok", "exit") and not out.failed and \
        not T.quiet(proc).strip()
    hit = bool(proc.fired) or plan["quota"] is not None
    bad = [e["bad"] for e in docs if e["bad"] and not e["lax"]]
    same = len(set(e["out"] for e in docs)) < len(docs)
    if same:
        # one would overwrite the other
        bad.append("same output")
    if bad and good:
        violate("silent", "not reported: %r" % bad)
    if not [e for e in docs if e["bad"]] and not same and not hit and not good:
        violate("failed", "%r\n%s" % (out, proc.stderr.getvalue()))
    after = fs.listing()
    outs = [e["out"] for e in docs]
    for k in sorted(before):
        if k not in outs and after.get(k, 0) != before[k]:
            violate("other-file", "%s changed" % k)
    for k in sorted(after):
        if k not in before and k not in outs and good:
            violate("litter", "left behind %s" % k)
    for e in docs:
        data = fs.get(e["out"])
        if same and data != e["was"]:
            violate("overwritten", "%s written" % e["out"])
        if data == e["was"] and not good:
            continue
        if data == e["was"]:
            violate("silent", "%s not written, yet %r" % (e["out"], out))
        if e["bad"] and e["bad"] != "notag" and not e["lax"]:
            violate("partial", "%s written in spite of %r"
                    % (e["out"], e["bad"]))
        if e["lax"]:
            continue
        got = M.parse_corpus(data, e["out"])
        if got is None:
            violate("damaged", "%s after %r: %s" % (e["out"], out,
                                                    brief(data or "gone", 200)))
        entries = [y[1] for y in got.pop("entries")]
        if len(set(entries)) != len(entries):
            violate("twice", "a graphbank is listed twice: %r" % entries)
        want = M.expect(e["m"], False)
        got["relations"].sort()
        if canon(got) != canon(want):
            violate("pairs", "%s: %s" % (e["out"], first_diff(want, got)))
        if got["pairs"]:
            # the whole can be loaded
            s = Session(w, "load", "/")

            def load():
                from daeso.pgc.corpus import ParallelGraphCorpus
                c = ParallelGraphCorpus(inf=e["out"])
                return M.snap(c)
            full = s.must("load", load)
            full["relations"].sort()
            want = M.expect(e["m"])
            if canon(full) != canon(want):
                violate("loaded", first_diff(want, full))
            s.end()
    return {"steps": {"p": steps}, "nt": True}


def run_api(plan, w, e):
    fs = w.fs
    s = Session(w, "p", plan["cwd"], plan["faults"])
    before = fs.listing()
    name = lambda p: posixpath.relpath(p, plan["cwd"]) if plan["rel"] else p
    kw = {}
    if plan["rels"]:
        kw["relations"] = plan["rels"]
    if plan["maxlen"] is not None:
        kw["max_token_len"] = plan["maxlen"]
    if plan["mindiff"] is not None:
        kw["min_token_diff"] = plan["mindiff"]

    def make():
        from daeso.pair import Pair
        from daeso.pgc.creation import pgc_from_ptc
        if plan["tags"]:
            kw["focus_tags"] = Pair(*plan["tags"])
        return pgc_from_ptc(name(e["path"]), name(e["banks"][0]["path"]),
                            name(e["banks"][1]["path"]),
                            graph_formats=Pair(*plan["formats"]), **kw)
    out = s.do(make)
    st = marks(s.p)
    if fs.listing() != before:
        violate("other-file", "something was written")
    if out.kind == "ok":
        if e["bad"] and not e["lax"]:
            violate("silent", "not reported: %r" % e["bad"])
        if not e["lax"]:
            want = M.expect(e["m"])
            got = s.must("inspect", M.snap, out.value)
            got["relations"].sort()
            if canon(got) != canon(want):
                violate("pairs", first_diff(want, got))
    elif not e["bad"] and not s.p.fired:
        violate("failed", "%r\n%s" % (out, out.tb or ""))
    s.end()
    return {"steps": {"p": st}, "nt": True}
