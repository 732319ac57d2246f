# -*- coding: utf-8 -*-
"""
C22 command line tools fail loudly and read-only tools change nothing

Every tool is run twice on the same files: undisturbed, and with faults,
damaged input or another process in its way.  The disturbed run must fail in a
way its user can see, or do exactly what the undisturbed run did.
"""
import copy
import posixpath
from lib import *
import model as M
import ptcm as T
import c17
import c23

SHRINK = ("faults", "model.pairs", "model.pairs.*.align", "docs", "files",
          "docs.*.links", "more")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("full", [None]),
           ("quota", [None]), ("other", [None]), ("hurt", [None]),
           ("extra", [None]), ("world.buf", [4096]))

READONLY = ["gb_stats", "pgc_stats", "pgc_agreement", "pgc_diff", "pgc_join",
            "pgc_extract_phrases", "ptc_diff", "ptc_eval"]
WRITERS = ["pgc_chdir", "pgc_cp", "pgc_split", "pgc_zip", "pgc_from_ptc",
           "ptc_chdir", "ptc_n_to_id"]
ANYTHING = ["pgc_zip"]      # archives files without a look inside all of them
C = "/data/pgc"


def gen(rng, tier):
    name = rng.choice(READONLY + WRITERS)
    if name == "pgc_from_ptc":
        while True:
            p = c17.gen(rng, tier)
            if not p["api"] and not p["damage"] and not p["maxlen"] and \
                    not p["mindiff"]:
                break
    else:
        p = {"world": {"seed": rng.below(1 << 30),
                       "buf": rng.choice([16, 64, 512, 4096])},
             "cwd": rng.choice([C, "/data", "/work"]),
             "style": M.gen_style(rng), "rel": rng.chance(0.5)}
        if name[0] == "p" and name[1] == "t":
            gen_texts(rng, p, name)
        else:
            gen_corpora(rng, p, name)
    p["tool"] = name
    p.update(faults=[], quota=None, full=None, hurt=None, other=None,
             extra=None, old=rng.chance(0.5), opt=rng.below(1 << 16))
    return p


def gen_texts(rng, p, name):
    p["docs"] = []
    n = rng.int(1, 3)
    if name != "ptc_n_to_id" and name != "ptc_chdir":
        n = 2 if name == "ptc_diff" else 2 * rng.int(1, 2)
    texts = [T.gen_text(rng, pre, True, 3, rng.chance(0.6), 1)
             for pre in ("f", "t")]
    for i in range(n):
        p["docs"].append({
            "texts": texts, "method": rng.choice([None, "n", "n"])
            if name == "ptc_n_to_id" else "n",
            "links": [[rng.below(1 << 16), rng.below(1 << 16)]
                      for _ in range(rng.below(6))]})


def gen_corpora(rng, p, name):
    while True:
        m = M.gen_model(rng, maxbanks=2, maxgraphs=3, minpairs=1,
                        maxpairs=rng.choice([2, 5]), maxnodes=4,
                        formats=["alpino"], nodeids="num",
                        dirs=["/data/gb", C], rels=c23.RELS,
                        meta=name != "pgc_join")
        if m["pairs"]:
            break
    p["model"] = m
    n = {"pgc_chdir": rng.int(1, 2), "pgc_cp": 1, "pgc_diff": 2,
         "pgc_agreement": rng.int(2, 3), "pgc_split": 1}
    o = {"drop": 0.3, "relabel": 0.2, "swap": 0.3, "new": 0.4}
    p["files"] = [{"name": rng.choice(["c%d.pgc", "x %d.pgc"]) % i,
                   "align": c23.vary(rng, m, o)}
                  for i in range(n.get(name, rng.int(1, 3)))]


def faults(rng, plan, base, tier):
    out = []
    st = base["steps"]["p"]
    reads = plan["tool"] in READONLY
    for n in range(12 if tier == "quick" else 28):
        p = norm(plan)
        k = rng.weighted([("err", 8), ("short", 2), ("full", 2),
                          ("crash", 2), ("two", 1), ("damage", 6),
                          ("other", 4), ("extra", 1), ("intr", 1)])
        if n < 2:
            k = "damage"
        if k == "full":
            if reads and rng.chance(0.8):
                p["full"] = rng.below(rng.choice([60, 600, 4000]))
            else:
                p["quota"] = rng.below(rng.choice([30, 400, 2000]))
        elif k == "short":
            p["faults"] = shorts(rng, 1)
        elif k == "two":
            p["faults"] = [place(rng, st, ("err",)), place(rng, st, ("err",))]
        elif k in ("err", "crash", "intr"):
            p["faults"] = [place(rng, st, (k,))]
        elif k == "damage":
            kind = rng.choice(["gone", "cut", "cut", "empty", "locked", "dir",
                               "junk", "loop", "rodir"])
            if n == 0:
                # what a full disk or a crash leaves behind
                kind = "empty"
            p["hurt"] = [kind, rng.below(1 << 16), rng.below(1 << 16)]
        elif k == "other":
            p["other"] = [rng.int(1, max(st["n"], 1)),
                          rng.choice(["gone", "cut", "empty", "dir"]),
                          rng.below(1 << 16), rng.below(1 << 16)]
        else:
            p["extra"] = [rng.choice(["option", "missing", "none"]),
                          rng.below(1 << 16)]
        out.append(p)
    return out


# --------------------------------------------------------------------------
# the files and the command
# --------------------------------------------------------------------------

def build(plan):
    "-> world, argv, arguments that are input files"
    w = mkworld(plan)
    fs = w.fs
    for d in (C, "/data/gb", "/work", "/data/texts"):
        fs.mkdirs(d)
    name, cwd = plan["tool"], plan["cwd"]
    o = Rng("c22", plan["opt"])
    if name == "pgc_from_ptc":
        docs = c17.prepare(plan, w)
        if [e for e in docs if e["bad"]] or \
                len(set(e["out"] for e in docs)) < len(docs):
            raise Discard()
        if plan["old"]:
            for e in docs:
                fs.put(e["out"], "<old/>")
        return w, c17.arguments(plan, docs)

    def path(p):
        return posixpath.relpath(p, cwd) if plan["rel"] else p
    if "docs" in plan:
        return w, texts(plan, fs, name, o, path)
    m = plan["model"]
    if not m["pairs"] or not plan["files"]:
        raise Discard()
    M.put_banks(fs, m)
    paths = []
    for f in plan["files"]:
        if len(f["align"]) < len(m["pairs"]):
            raise Discard()
        sub = copy.deepcopy(m)
        for p, al in zip(sub["pairs"], f["align"]):
            p["align"] = [list(x) for x in al]
            for side in (0, 1):
                ids = [n["id"] for n in M.graph_of(m, p, side)["nodes"]]
                if [x for x in al if x[side] not in ids]:
                    raise Discard()
        x = C + "/" + f["name"]
        if fs.get(x) is not None:
            raise Discard()
        fs.put(x, M.corpus_xml(sub, x, plan["style"]))
        paths.append(x)
    given = [path(x) for x in paths]
    if name == "gb_stats":
        argv = o.subset(["-a", "-e", "-f", "-l", "-p"], 0.3)
        return w, argv + [path("/data/gb") + "/*.xml"
                          if fs.listing("/data/gb").keys() != ["/data/gb"]
                          else path(m["banks"][0]["path"]), "-F", "alpino"]
    if name == "pgc_stats":
        argv = o.subset(["-a", "-e", "-f", "-l", "-p", "-r", "-u"], 0.3)
        return w, argv + [path(C) + "/*.pgc"]
    if name == "pgc_agreement":
        if len(paths) < 2:
            raise Discard()
        if o.chance(0.4):
            if plan["old"]:
                fs.put("/work/out.pickle", "old")
            given += ["-p", path("/work/out.pickle")]
        return w, given + o.subset(["-w"], 0.4)
    if name == "pgc_diff":
        if len(paths) != 2:
            raise Discard()
        return w, given + o.subset(["-c", "-i", "-e"], 0.4)
    if name == "pgc_extract_phrases":
        return w, o.subset(["-V"], 0.5) + given
    if name == "pgc_join":
        return w, o.subset(["-f"], 0.4) + given
    if name == "pgc_chdir":
        pre = o.choice([["gb", "other"], ["/data", "/old"], ["../", ""],
                        ["zz", "y"]])
        return w, ["-p"] + pre + given
    if name == "pgc_cp":
        target = path(o.choice(["/work/new.pgc", C + "/copy.pgc"]))
        if plan["old"]:
            fs.put(posixpath.join(cwd, target), "<old/>")
        return w, ["-o"] + given + [target]
    if name == "pgc_split":
        return w, ["-s", str(o.int(1, 3))] + o.subset(["-f"], 0.4) + given
    if name == "pgc_zip":
        target = path("/work/out.zip")
        if plan["old"]:
            fs.put("/work/out.zip", "junk")
        return w, [target] + given
    raise HarnessError(name)


def texts(plan, fs, name, o, path):
    docs = []
    if not plan["docs"]:
        raise Discard()
    for i, x in enumerate(plan["docs"]):
        d = {"sides": [], "method": x["method"], "links": [], "font": []}
        els = []
        for side, t in enumerate(x["texts"]):
            p = "/data/texts/%s.xml" % "ft"[side]
            if name == "ptc_n_to_id":
                p = "/data/texts/%s%d.xml" % ("ft"[side], i)
            fs.put(p, M.Ser(plan["style"]).doc(t))
            d["sides"].append({"file": p, "root": None, "elems": []})
            els.append(T.elems(t))
        seen = set()
        for a, b in x["links"]:
            if name == "ptc_n_to_id" or name == "ptc_chdir":
                f, t = [[e for e in s if e[2] is not None] for s in els]
            else:
                f, t = els
            if not f or not t:
                continue
            f, t = f[a % len(f)], t[b % len(t)]
            if (f[:2], t[:2]) in seen:
                continue
            seen.add((f[:2], t[:2]))
            d["links"].append([["from_tag", f[0]], ["from_n", str(f[1])],
                               ["to_tag", t[0]], ["to_n", str(t[1])]])
        p = "%s/d%d.hitaext" % (C, i)
        fs.put(p, T.doc_xml(d, plan["style"]))
        docs.append(path(p))
    if name == "ptc_diff":
        if len(docs) != 2:
            raise Discard()
        return docs + (["-t", "p"] if o.chance(0.4) else [])
    if name == "ptc_eval":
        if len(docs) % 2:
            raise Discard()
        n = len(docs) // 2
        return ["-t"] + docs[:n] + ["-p"] + docs[n:] + \
            (["--tag", "p"] if o.chance(0.3) else [])
    if name == "ptc_chdir":
        return docs + (["-d", "/new"] if o.chance(0.6) else [])
    return docs


# --------------------------------------------------------------------------
# runs
# --------------------------------------------------------------------------

class Base(object):
    "what the undisturbed run did"


def undisturbed(plan):
    b = Base()
    w, b.argv = build(plan)
    b.before = w.fs.listing()
    used = []
    name = plan["tool"] + ".py"
    w.fs.mkdirs(plan["cwd"])
    p = w.spawn("base", plan["cwd"])
    prep_std(p)
    import seams

    def opened(proc, kind, path):
        q = seen(w.fs, proc.cwd, path)
        if q is not None and q not in used:
            used.append(q)
    p.hooks.append(("open_r", opened))
    out = seams.run_tool(p, name, b.argv)
    b.what = "%s %s: %r" % (name, b.argv, out)
    if out.failed or out.kind not in ("ok", "exit") or T.quiet(p).strip():
        if plan["tool"] in ("pgc_from_ptc", "ptc_diff", "pgc_zip"):
            # unusable input: lengths, tags that do not occur, equal names
            raise Discard()
        violate("failed", "%s %s\n%s" % (b.what, p.stderr.getvalue(),
                                         out.tb or ""))
    b.used = sorted(x for x in used if x in b.before)
    b.after = w.fs.listing()
    b.text = p.stdout.getvalue()
    b.steps = marks(p)
    if plan["tool"] in READONLY:
        for x in sorted(set(b.before) | set(b.after)):
            if b.before.get(x, 0) != b.after.get(x, 0) and \
                    not x.endswith(".pickle"):
                violate("changed", "%s: %s" % (b.what, x))
    return b


def seen(fs, cwd, path):
    "the real path of an existing file"
    node = fs.lookup(path, True, cwd)
    if node is None or node.kind != "f":
        return None
    for q in fs.files():
        if fs.lookup(q) is node:
            return q


def lines(text):
    return sorted(text.split("\n"))


def matched(name, path):
    "a file found with a pattern, so that nobody can miss it"
    return name == "gb_stats" or name == "pgc_stats" and path.endswith(".pgc")


def hurt(fs, k, path, a):
    "damage a file; False if it stays as it was"
    data = fs.get(path)
    if k == "gone":
        fs.unlink(path)
    elif k == "cut":
        n = len(data.rstrip())
        if n < 2:
            return False
        fs.put(path, data[:a % (n - 1)])
    elif k == "empty":
        fs.put(path, "")
    elif k == "junk":
        fs.put(path, ["\0\0\0\0", "no xml", "<a><b></a>", data + "<x/>",
                      "PK\3\4"][a % 5])
    elif k == "locked":
        fs.lookup(path).mode = 0
    elif k == "dir":
        fs.unlink(path)
        fs.mkdirs(path)
    elif k == "loop":
        fs.unlink(path)
        fs.symlink(posixpath.basename(path), path)
    return True


_last = []


def base_of(plan):
    "the undisturbed run, which many plans have in common"
    import lib
    key = canon(dict((k, v) for k, v in plan.items() if k not in
                     ("faults", "quota", "full", "hurt", "other", "extra")))
    if not _last or _last[0] != key:
        del _last[:]
        b = undisturbed(plan)
        _last[:] = [key, b]
    # not part of what happened in this run, whether or not it was repeated
    del lib._WORLDS[:]
    return _last[1]


def run(plan):
    base = base_of(plan)
    name = plan["tool"]
    rep = {"nt": True, "steps": {"p": base.steps}}
    w, argv = build(plan)
    if argv != base.argv:
        raise HarnessError("two different commands")
    fs = w.fs
    must_fail = lax = False
    if plan["hurt"]:
        k, i, a = plan["hurt"]
        if k == "rodir":
            written = sorted(set(posixpath.dirname(x) for x in base.after
                                 if base.before.get(x, 0) != base.after[x]))
            if not written:
                raise Discard()
            fs.lookup(written[i % len(written)]).mode = 0o555
        else:
            if not base.used:
                raise Discard()
            x = base.used[i % len(base.used)]
            if k == "gone" and matched(name, x):
                raise Discard()
            must_fail = hurt(fs, k, x, a)
            if name in ANYTHING and k in ("cut", "empty", "junk") and \
                    must_fail:
                must_fail = False
                if not x.endswith(".pgc"):
                    lax = True
    if plan["extra"]:
        k, a = plan["extra"]
        must_fail = True
        if k == "option":
            argv.insert(a % (len(argv) + 1), "--no-such-option")
        elif k == "none":
            if name == "pgc_from_ptc":
                raise Discard()         # nothing to do
            argv = []
        else:
            files = [i for i, x in enumerate(argv) if x in
                     [posixpath.relpath(y, plan["cwd"]) if plan["rel"] else y
                      for y in base.used]]
            if not files:
                raise Discard()
            argv[files[a % len(files)]] = ["/data/no such file", "nothing*",
                                           ""][a % 3]
    before = fs.listing()
    fs.mkdirs(plan["cwd"])
    p = w.spawn("p", plan["cwd"], plan["faults"])
    prep_std(p)
    p.stdout.full = plan["full"]
    acted = []
    hidden = {}
    if plan["other"]:
        at, k, i, a = plan["other"]
        if not base.used:
            raise Discard()
        x = base.used[i % len(base.used)]
        if k == "gone" and matched(name, x):
            k = "cut"

        def act(proc, kind, path):
            if proc.steps == at and not acted and fs.get(x) is not None:
                acted.append(x)
                hidden[x] = fs.get(x)
                hurt(fs, k, x, a)
                w.fired("other:" + k, proc, x)
        p.hooks.append(("*", act))
    w.quota = plan["quota"]
    import seams
    out = seams.run_tool(p, name + ".py", argv)
    w.quota = None
    after = fs.listing()
    what = "%s.py %s (%s): %r" % (name, argv, canon(
        [plan["hurt"], plan["other"], plan["extra"]]), out)
    if out.kind == "hang":
        violate("hang", what)
    good = not out.failed and out.kind != "crash" and \
        not T.quiet(p).strip()
    if good and must_fail:
        violate("silent", what)
    disturbed = p.fired or plan["full"] is not None or acted or \
        plan["quota"] is not None or must_fail or plan["hurt"]
    if not good and not disturbed:
        violate("failed", "%s %s\n%s" % (what, p.stderr.getvalue(),
                                         out.tb or ""))
    if not p.fired and out.kind == "crash":
        raise HarnessError("crash without a fault")
    if name in ANYTHING and plan["other"]:
        lax = True
    if good and lax:
        # what was in the file need not be right
        return rep
    # the other process may have ended the life of what had been written
    gone = set(acted)
    for x in acted:
        for y in after:
            if y.startswith(x + "/"):
                gone.add(y)
    left = out.kind == "crash" or [f for f in w.fault_counts
                                   if f.endswith(":unlink")] or \
        plan["hurt"] and plan["hurt"][0] == "rodir"
    for x in sorted(set(before) | set(after) | set(base.after)):
        if x in gone:
            continue
        now, was = after.get(x, 0), before.get(x, 0)
        then = base.after.get(x, 0)
        if was != base.before.get(x, 0):
            # damaged input
            if now != was and now != then:
                violate("changed", "%s: %s" % (what, x))
            continue
        if good and now != then:
            if x not in base.before and x not in base.after and left:
                continue
            violate("silent", "%s: %s is not %s" % (
                what, x, "there" if now == 0 else "what it should be"))
        if not good and now != then and now != was:
            if was == 0 and then == 0 and left:
                continue
            violate("mixed", "%s: %s is neither old nor new: %s"
                    % (what, x, brief(now or "gone")))
        if name in READONLY and now != was and not x.endswith(".pickle"):
            violate("changed", "%s: %s" % (what, x))
    if good and lines(p.stdout.getvalue()) != lines(base.text):
        violate("silent", "%s: other output\n%s\n%s" % (
            what, brief(p.stdout.getvalue(), 1500), brief(base.text, 1500)))
    w.probe("good" if good else "failed")
    return rep
