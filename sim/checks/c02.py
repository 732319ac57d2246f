# -*- coding: utf-8 -*-
"""
C02 a save that is interrupted or fails leaves the old or the new version
"""
import copy
import posixpath
from lib import *
import model as M
import edits as E

SHRINK = ("faults", "ops", "model.pairs", "model.pairs.*.align",
          "model.banks.*.graphs", "model.meta.3")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("pprint", [False]),
           ("abs", [False]), ("link", [None]), ("quota", [None]),
           ("perm", [None]),
           ("rel", [False]), ("world.buf", [4096]))

D = ["/data/pgc", "/data", "/work"]


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=2, maxgraphs=3, maxpairs=4, maxnodes=4,
                    dirs=["/data", "/data/gb", "/srv/c"], minpairs=1)
    api = rng.weighted([("write", 6), ("chdir", 3), ("cp", 2), ("split", 2)])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 1024, 8192])},
            "model": m, "api": api, "style": M.gen_style(rng),
            "mode": rng.choice([2, 3]),
            "old": rng.weighted([("same", 5), ("none", 2), ("other", 2)]),
            "dir": rng.choice(D), "cwd": rng.choice(D), "rel": rng.chance(0.4),
            "link": rng.choice([None, None, None, "dir", "file"]),
            "pprint": rng.chance(0.4), "abs": rng.chance(0.3),
            "size": rng.int(1, 3),
            "ops": [E.gen_edit(rng, m) for _ in range(rng.below(3))],
            "perm": rng.weighted([(None, 6), (0o600, 2), (0o664, 1),
                                  (0o444, 1)]),
            "faults": [], "quota": None}


def faults(rng, plan, base, tier):
    st = base["steps"]["p"]
    n = 6 if tier == "quick" else 24
    out = []
    for _ in range(n):
        p = norm(plan)
        k = rng.weighted([("crash", 5), ("err", 5), ("two", 1), ("full", 2),
                          ("intr", 2)])
        a = rng.below(1 << 16)
        if k == "full":
            p["quota"] = rng.below(rng.choice([30, 400, 2000]))
        elif k == "two":
            at = rng.int(max(1, st["n"] - 12), max(st["n"], 1))
            p["faults"] = [{"at": at, "f": "err", "a": a},
                           {"at": at + rng.int(1, 4),
                            "f": rng.choice(["crash", "err", "intr"]),
                            "a": rng.below(1 << 16)}]
        else:
            p["faults"] = [place(rng, st, (k,))]
        out.append(p)
    return out


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    api = plan["api"]
    m = plan["model"]
    for d in D:
        fs.mkdirs(d)
    M.put_banks(fs, m)
    name = plan["dir"] + "/corp.pgc"
    old = None
    src = name
    old_m = copy.deepcopy(m)
    if api in ("cp", "write") and plan["old"] != "same":
        src = "/work/src.pgc"
        fs.put(src, M.corpus_xml(m, src, plan["style"]))
        if plan["old"] == "other":
            old_m["meta"] = ["corpus_meta_data", [["v", "old"]], "old", [], ""]
            old_m["pairs"].reverse()
            fs.put(name, M.corpus_xml(old_m, name, plan["style"]))
            old = M.expect(old_m, False)
    else:
        if api == "cp":
            src = "/work/src.pgc"
            fs.put(src, M.corpus_xml(m, src, plan["style"]))
            old_m["meta"] = None
        fs.put(name, M.corpus_xml(old_m, name,
                                  dict(plan["style"], pad=False)))
        old = M.expect(old_m, False)
    perm = plan.get("perm") if api != "split" and old is not None else None
    if perm is not None:
        fs.lookup(name).mode = perm
    given = name
    if plan["link"] == "dir":
        fs.symlink(plan["dir"], "/ln")
        given = "/ln/corp.pgc"
    elif plan["link"] == "file" and old is not None:
        # a link to a file in the same directory
        fs.symlink("corp.pgc", plan["dir"] + "/alias.pgc")
        given = plan["dir"] + "/alias.pgc"
    if plan["rel"]:
        given = posixpath.relpath(given, plan["cwd"])
    before = fs.listing()

    left = ()
    targets = {}            # path -> [old, new]
    want = None
    if api == "chdir":
        new_m = copy.deepcopy(m)
        for b in new_m["banks"]:
            text = b["path"] if plan["style"]["abs"] else \
                posixpath.relpath(b["path"], plan["dir"])
            b["path"] = text
        pre = ["/data", "/old"] if plan["style"]["abs"] else ["", "sub/"]
        for b in new_m["banks"]:
            t = b["path"]
            if t.startswith(pre[0]):
                t = pre[1] + t[len(pre[0]):]
            b["path"] = t if t.startswith("/") else \
                posixpath.normpath(posixpath.join(plan["dir"], t))
        targets[name] = [old, M.expect(new_m, False)]
    elif api == "cp":
        targets[name] = [old, M.expect(m, False)]
    elif api == "split":
        n = len(m["pairs"])
        stem = posixpath.dirname(name) + "/" + posixpath.basename(given)[:-4]
        for i in range(0, n, plan["size"]):
            j = min(i + plan["size"], n)
            part = dict(m, pairs=m["pairs"][i:j])
            targets["%s_%04d-%04d.pgc" % (stem, i + 1, j)] = [
                None, M.expect(part, False)]

    if api == "write":
        s = Session(w, "save", plan["cwd"], plan["faults"])
        w.quota = plan["quota"]
        w_m = copy.deepcopy(m)
        box = {}

        def work():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            c.read(src, graph_loading=plan["mode"])
            for op in plan["ops"]:
                if plan["mode"] == 3 and op[0] == "newpair":
                    continue
                real = E.apply_m(w_m, op)
                if real is not None:
                    c = E.apply_c(c, real, w_m)
            box["c"] = c
        out = s.do(work)
        if out.kind != "ok":
            if not s.p.fired:
                violate("failed:work", "%r\n%s" % (out, out.tb or ""))
            targets[name] = [old, old]
        else:
            want = M.expect(w_m, False)
            targets[name] = [old, want]
            out = s.do(lambda: box["c"].write(given, pprint=plan["pprint"],
                                              abs_path=plan["abs"]))
        proc = s.p
        steps = marks(proc)
        if out.kind == "exc" and "c" in box:
            # the work is not lost: it can be saved after all
            check_targets(w, targets, out, proc, before, perm)
            s.p.faults = []
            w.quota = None
            left = fs.listing()
            if perm == 0o444:
                perm = fs.lookup(name).mode = 0o644
            got = s.must("inspect", M.snap, box["c"], False)
            if canon(got) != canon(want):
                violate("memory-changed", first_diff(want, got))
            s.must("save again", lambda: box["c"].write(
                given, pprint=plan["pprint"], abs_path=plan["abs"]))
            targets[name][0] = want
            out = seams_ok()
        s.end()
    else:
        w.quota = plan["quota"]
        argv = {"chdir": lambda: ["-p"] + pre + [given],
                "cp": lambda: ["-o", src, given],
                "split": lambda: ["-s", str(plan["size"])] +
                (["-f"] if plan["pprint"] else []) + [given]}[api]()
        out, proc = tool(w, "pgc_%s.py" % api, argv, "tool", plan["cwd"],
                         plan["faults"])
        steps = marks(proc)
    w.quota = None
    check_targets(w, targets, out, proc, before, perm, left)
    # what is there can be read
    s2 = Session(w, "load", "/")
    for t in sorted(targets):
        if fs.get(t) is None:
            continue

        def load():
            from daeso.pgc.corpus import ParallelGraphCorpus
            c = ParallelGraphCorpus()
            c.read(t, graph_loading=3)
            return c
        c = s2.must("load what was saved", load)
        got = canon(s2.must("inspect", M.snap, c, False))
        if got not in [canon(x) for x in targets[t]]:
            violate("neither", "reading %s gives neither version" % t)
    s2.end()
    left = fs.listing()
    # and saving again, without faults, works
    if api != "write" and api != "chdir":
        if perm == 0o444:
            perm = fs.lookup(name).mode = 0o644
        out, proc = tool(w, "pgc_%s.py" % api, argv, "again", plan["cwd"])
        if out.failed:
            violate("failed:again", repr(out) + proc.stderr.getvalue())
        check_targets(w, targets, out, proc, before, perm, left)
    return {"steps": {"p": steps}, "state": None,
            "nt": bool(plan["faults"] or plan["quota"] is not None)}


def seams_ok():
    import seams
    return seams.Outcome("ok")


def check_targets(w, targets, out, proc, before, perm=None, left=()):
    fs = w.fs
    after = fs.listing()
    for k in sorted(before):
        if k not in targets and after.get(k, 0) != before[k]:
            violate("other-file", "%s changed" % k)
    if not proc.dead and len(proc.faults) < 2:
        # only a crash, or a second failure, excuses leaving parts behind
        extra = sorted(set(after) - set(before) - set(left) - set(targets))
        if extra:
            violate("left-over", "%s after %r" % (extra[0], out))
    succeeded = out.kind in ("ok", "exit") and not out.failed
    if succeeded and proc.stderr.getvalue().strip():
        succeeded = False
    for t in sorted(targets):
        old, new = targets[t]
        data = fs.get(t)
        if data is None:
            if old is not None:
                violate("lost", "%s is gone after %r" % (t, out))
            if succeeded and new is not None:
                violate("silent", "%s not written, yet %r" % (t, out))
            continue
        got = M.parse_corpus(data, t)
        if got is None:
            violate("damaged", "%s is not a corpus after %r: %s"
                    % (t, out, brief(data, 200)))
        got.pop("entries")
        is_new = canon(got) == canon(new)
        is_old = old is not None and canon(got) == canon(old)
        if perm is not None and fs.lookup(t).mode != perm:
            violate("permissions", "%s has %o instead of %o after %r"
                    % (t, fs.lookup(t).mode, perm, out))
        if perm == 0o444:
            # write protected
            if data != before[t]:
                violate("protected", "%s was replaced, %r" % (t, out))
            if succeeded:
                violate("silent", "%s cannot be written, yet %r" % (t, out))
            continue
        if not is_new and not is_old:
            violate("mixed", "%s is neither old nor new after %r: %s"
                    % (t, out, first_diff(new, got)))
        if succeeded and not is_new:
            violate("silent", "%s is the old version, yet %r" % (t, out))
