# -*- coding: utf-8 -*-
"""
C01 what was saved is what is read back
"""
import posixpath
from lib import *
import model as M
import edits as E

SHRINK = ("faults", "faults2", "ops", "model.pairs", "model.pairs.*.align", "links",
          "model.meta.3", "model.banks.*.graphs")
SIMPLER = (("style", [M.PLAINSTYLE]), ("bstyle", [M.PLAINSTYLE]),
           ("build", [False]), ("dst.to", ["name"]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("dst.pprint", [False]),
           ("world.buf", [4096]))

CORPUS_DIRS = ["/data/pgc", "/data", "/work", "/out/x", "/data/pgc/ma"]


def gen(rng, tier):
    m = M.gen_model(rng)
    plan = {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 512, 4096])},
            "model": m, "style": M.gen_style(rng), "bstyle": M.gen_style(rng),
            "src": rng.choice(CORPUS_DIRS) + "/in.pgc",
            "build": rng.chance(0.3), "mode": rng.choice([1, 2, 2, 3]),
            "ops": [E.gen_edit(rng, m)
                    for _ in range(rng.weighted([(0, 3), (2, 2), (5, 1)]))],
            "cwd1": rng.choice(CORPUS_DIRS), "cwd2": rng.choice(CORPUS_DIRS),
            "links": [], "faults": shorts(rng), "faults2": shorts(rng),
            "dst": {"dir": rng.choice(CORPUS_DIRS),
                    "to": rng.weighted([("name", 6), ("file", 2),
                                        ("stdout", 1), ("strio", 1)]),
                    "pprint": rng.chance(0.4), "abs": rng.chance(0.3),
                    "rel": rng.chance(0.4)}}
    if rng.chance(0.3):
        plan["links"].append(["/ln%d" % rng.below(3), plan["dst"]["dir"]])
        plan["vialink"] = rng.chance(0.7)
        plan["readvia"] = rng.chance(0.5)
    return plan


def _mode(n):
    from daeso.pgc import corpus as c
    return {1: c.LOAD_ALL, 2: c.LOAD_SPARSE, 3: c.LOAD_NONE}[n]


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    for d in CORPUS_DIRS:
        fs.mkdirs(d)
    M.put_banks(fs, m, plan["bstyle"])
    fs.put(plan["src"], M.corpus_xml(m, plan["src"], plan["style"]))
    for ln, d in plan["links"]:
        fs.symlink(d, ln)
    dst = plan["dst"]
    s1 = Session(w, "save", plan["cwd1"], plan["faults"])
    mode = plan["mode"]

    def load():
        from daeso.pgc.corpus import ParallelGraphCorpus
        if plan["build"]:
            return E.build_corpus(m)
        c = ParallelGraphCorpus()
        c.read(plan["src"], graph_loading=_mode(mode))
        return c

    loaded = plan["build"] or mode != 3
    corpus = s1.must("load", load)
    got = s1.must("inspect", M.snap, corpus, loaded)
    want = M.expect(m, loaded)
    if canon(got) != canon(want):
        violate("load-differs", first_diff(want, got))
    # some work on it
    stubs = not loaded
    for op in plan["ops"]:
        if stubs and op[0] == "newpair":
            continue
        real = E.apply_m(m, op)
        if real is not None:
            corpus = s1.must("edit " + op[0], E.apply_c, corpus, real, m)
            stubs = stubs
    want = M.expect(m, loaded)
    got = s1.must("inspect", M.snap, corpus, loaded)
    if canon(got) != canon(want):
        violate("edit-differs", first_diff(want, got))
    # save
    d = dst["dir"]
    if plan["links"] and plan.get("vialink"):
        d = plan["links"][0][0]
    name = d + "/out.pgc"
    realname = dst["dir"] + "/out.pgc"
    if dst["to"] in ("stdout", "strio"):
        name = realname = plan["cwd1"] + "/out.pgc"
    elif dst["rel"]:
        name = posixpath.relpath(name, plan["cwd1"])

    def save():
        import cStringIO
        import sys
        kw = {"pprint": dst["pprint"], "abs_path": dst["abs"]}
        if dst["to"] == "name":
            corpus.write(name, **kw)
        elif dst["to"] == "file":
            f = open(name, "w")
            corpus.write(f, **kw)
            f.close()
        elif dst["to"] == "stdout":
            corpus.write(sys.stdout, **kw)
            return sys.stdout.getvalue()
        else:
            f = cStringIO.StringIO()
            corpus.write(f, **kw)
            return f.getvalue()

    data = s1.must("save", save)
    if data is not None:
        fs.put(realname, data)
    got = s1.must("inspect", M.snap, corpus, loaded)
    if canon(got) != canon(want):
        violate("save-changes-memory", first_diff(want, got))
    again = s1.must("save again", save)
    got = s1.must("inspect", M.snap, corpus, loaded)
    if canon(got) != canon(want):
        violate("save-changes-memory", first_diff(want, got))
    if again is not None:
        pass
    s1.end()
    data = fs.get(realname)
    if data is None:
        violate("nothing-saved", "no file " + realname)
    ind = M.parse_corpus(data, realname)
    if ind is None:
        violate("not-well-formed", brief(data))
    # with nothing to align there are no graphbanks to mention
    entries = ind.pop("entries")
    want0 = M.expect(m, False)
    if canon(ind) != canon(want0):
        violate("file-differs", first_diff(want0, ind))
    for _, text, _ in entries:
        if dst["abs"] != text.startswith("/"):
            violate("path-style", "abs_path=%s but %s" % (dst["abs"], text))
    # read back, in another process, from another directory
    rname = realname
    if plan["links"] and plan.get("readvia") and dst["to"] in ("name", "file"):
        rname = plan["links"][0][0] + "/out.pgc"
    if dst["rel"]:
        rname = posixpath.relpath(rname, plan["cwd2"])
    s2 = Session(w, "load", plan["cwd2"], plan["faults2"])
    for mode2 in (3, 2, 1):
        def load2():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            if mode2 == 2:
                f = open(rname)
                c.read(f, graph_loading=_mode(mode2))
                f.close()
            else:
                c.read(rname, graph_loading=_mode(mode2))
            return c
        c2 = s2.must("load back", load2)
        got = s2.must("inspect", M.snap, c2, mode2 != 3)
        want2 = M.expect(m, mode2 != 3)
        if canon(got) != canon(want2):
            violate("reload-differs", "loading mode %d: %s"
                    % (mode2, first_diff(want2, got)))
    eq = s2.must("compare", lambda: (c2 == c2, c2 != c2))
    if not eq[0] or eq[1]:
        violate("not-equal-itself", repr(eq))
    s2.end()
    return {"nt": len(m["pairs"]) > 0, "state": None}
