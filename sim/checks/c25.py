# -*- coding: utf-8 -*-
"""
C25 processes that run at the same time see complete files only

Two or three processes (tools, or programs that load, change and save) work on
the same files; the plan decides before which system calls another one takes
over.  Each must do exactly what it does when it runs alone on one version of
each of the files, namely one that was there while it was running, and every
file it makes must appear in one go.
"""
import copy
import itertools
import posixpath
from lib import *
import model as M
import procs
import ptcm as T
import c17
import c22
import c23

SHRINK = ("faults", "faults.*", "preempt", "actors", "model.pairs",
          "model.pairs.*.align", "docs.*.links")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("world.buf", [4096]),
           ("rel", [False]), ("links", [[]]))

C = "/data/pgc"
PGC = [("edit", 5), ("pgc_chdir", 3), ("pgc_cp", 3), ("pgc_split", 1),
       ("pgc_zip", 3), ("pgc_join", 1), ("pgc_stats", 2), ("gb_stats", 1),
       ("pgc_diff", 1), ("pgc_agreement", 1), ("pgc_extract_phrases", 2)]
MAKE = [("edit", 3), ("ptc_chdir", 2), ("pgc_from_ptc", 5), ("pgc_stats", 2)]
PTC = [("edit", 4), ("ptc_chdir", 3), ("ptc_n_to_id", 4), ("ptc_diff", 2),
       ("ptc_eval", 2)]


def gen(rng, tier):
    p = {"world": {"seed": rng.below(1 << 30),
                   "buf": rng.choice([16, 64, 512, 4096])},
         "cwd": rng.choice([C, "/data", "/work"]), "style": M.gen_style(rng),
         "rel": rng.chance(0.5), "preempt": [], "faults": {}}
    which = rng.weighted([("pgc", 13), ("ptc", 5), ("make", 2)])
    texts = which == "ptc"
    if which == "make":
        while True:
            q = c17.gen(rng, tier)
            if not q["api"] and not q["damage"] and len(q["docs"]) < 3:
                break
        q.update(style=p["style"], rel=p["rel"], preempt=[], faults={},
                 make=True, links=[])
        p = q
    elif texts:
        c22.gen_texts(rng, p, "ptc_n_to_id")
        while len(p["docs"]) < 2:
            p["docs"].append(copy.deepcopy(p["docs"][0]))
        p["links"] = []
    else:
        c22.gen_corpora(rng, p, "pgc_diff")
        for i, f in enumerate(p["files"]):
            f["name"] = "c%d.pgc" % i
        p["model"]["meta"] = None
        # a corpus that is a link to the other one
        p["links"] = [["ln.pgc", "c0.pgc"]] if rng.chance(0.2) else []
    p["actors"] = []
    n = rng.choice([2, 2, 3])
    one = rng.below(1 << 8)         # mostly the same file
    while len(p["actors"]) < n:
        a = {"tool": rng.weighted(PTC if texts else PGC),
             "opt": rng.below(1 << 16), "f": one if rng.chance(0.6) else
             rng.below(1 << 8)}
        if which == "make":
            a["tool"] = rng.weighted(MAKE) if p["actors"] else "pgc_from_ptc"
        elif not p["actors"]:
            # somebody must write
            a["tool"] = rng.choice(["edit", "ptc_chdir", "ptc_n_to_id"]
                                   if texts else
                                   ["edit", "edit", "pgc_chdir", "pgc_cp",
                                    "pgc_split", "pgc_zip"])
        p["actors"].append(a)
    p["actors"] = rng.shuffle(p["actors"])
    return p


def faults(rng, plan, base, tier):
    out = []
    st = base["steps"]
    total = st["total"]
    hot = st["hot"]
    for _ in range(7 if tier == "quick" else 24):
        p = norm(plan)
        n = rng.choice([1, 1, 2, 3, 5, 9, 30])
        at = set()
        for _ in range(n):
            near = rng.weighted([(hot, 2), (st["reads"], 2), (None, 3)])
            if near:
                # where files are replaced or opened
                at.add(max(1, rng.choice(near) + rng.int(-4, 4)))
            else:
                at.add(rng.int(1, max(total, 1)))
        p["preempt"] = [[x, rng.below(8)] for x in sorted(at)]
        p["actors"] = rng.shuffle(p["actors"])
        if rng.chance(0.25):
            i = rng.below(len(p["actors"]))
            a = canon(p["actors"][i])
            j = [canon(x) for x in plan["actors"]].index(a)
            p["faults"] = {str(i): [place(rng, st["a%d" % j],
                                          ("err", "crash", "intr"))]}
        out.append(p)
    return out


# --------------------------------------------------------------------------
# files
# --------------------------------------------------------------------------

def setup(plan, w):
    "the files all processes work on; -> their paths"
    fs = w.fs
    for d in (C, "/data/gb", "/work", "/data/texts"):
        fs.mkdirs(d)
    out = []
    if "make" in plan:
        # one process may find what another one has made
        docs = c17.prepare(plan, w)
        return [e["path"] for e in docs], docs
    if "docs" in plan:
        p = dict(plan, rel=False)
        if len(plan["docs"]) < 2:
            raise Discard()
        return c22.texts(p, fs, "ptc_n_to_id", Rng("c25", 0),
                         lambda x: x), None
    m = plan["model"]
    if not m["pairs"] or len(plan["files"]) < 2:
        raise Discard()
    M.put_banks(fs, m)
    for f in plan["files"]:
        if len(f["align"]) < len(m["pairs"]):
            raise Discard()
        sub = copy.deepcopy(m)
        for p, al in zip(sub["pairs"], f["align"]):
            p["align"] = [list(x) for x in al]
            for side in (0, 1):
                ids = [n["id"] for n in M.graph_of(m, p, side)["nodes"]]
                if [x for x in al if x[side] not in ids]:
                    raise Discard()
        x = C + "/" + f["name"]
        if fs.get(x) is not None:
            raise Discard()
        fs.put(x, M.corpus_xml(sub, x, plan["style"]))
        out.append(x)
    for a, b in plan["links"]:
        fs.symlink(b, C + "/" + a)
        out.append(C + "/" + a)
    return out, None


def command(plan, setting, a):
    "-> the arguments of a tool"
    files, docs = setting
    o = Rng("c25", a["opt"])
    name, cwd = a["tool"], plan["cwd"]

    def path(p):
        return posixpath.relpath(p, cwd) if plan["rel"] else p
    k = a["f"] % len(files)
    if name == "pgc_from_ptc":
        return c17.arguments(plan, docs)
    if name == "pgc_stats" and docs:
        return [path(posixpath.dirname(docs[k]["out"])) + "/*.pgc"]
    one = files[k]
    two = files[(k + 1) % len(files)]
    linked = [[C + "/" + x, C + "/" + y] for x, y in plan["links"]]
    some = [path(one)]
    if o.chance(0.4) and one != two and [one, two] not in linked and \
            [two, one] not in linked:
        some.append(path(two))
    if name == "pgc_chdir":
        pre = o.choice([["gb", "other"], ["/data", "/old"], ["../", ""],
                        ["zz", "y"], ["other", "gb"]])
        return ["-p"] + pre + some
    if name == "pgc_cp":
        to = o.choice(["/work/new.pgc", C + "/new.pgc", two])
        return ["-o", path(one), path(to)]
    if name == "pgc_split":
        return ["-s", str(o.int(1, 2)), "-f", path(one)]
    if name == "pgc_zip":
        return [path("/work/out.zip")] + some
    if name == "pgc_join":
        return some
    if name == "pgc_stats":
        return o.subset(["-a", "-u"], 0.3) + [path(C) + "/*.pgc"]
    if name == "gb_stats":
        return o.subset(["-a", "-e"], 0.3) + \
            [path(b["path"]) for b in plan["model"]["banks"]] + \
            ["-F", "alpino"]
    if name in ("pgc_diff", "pgc_agreement", "ptc_diff"):
        return [path(one), path(two)]
    if name == "pgc_extract_phrases":
        return some
    if name == "ptc_chdir":
        return some + (["-d", o.choice(["/new", "/data/texts"])]
                       if o.chance(0.7) else [])
    if name == "ptc_n_to_id":
        return some
    if name == "ptc_eval":
        return ["-t", path(one), "-p", path(two)]
    raise HarnessError(name)


def edit(plan, files, a):
    "a program that loads something, changes it and saves it"
    one = files[0][a["f"] % len(files[0])]
    mark = "mark %d" % a["opt"]

    def go_pgc():
        from daeso.pgc.corpus import ParallelGraphCorpus
        c = ParallelGraphCorpus(inf=one)
        c.set_annotator(mark)
        if a["opt"] % 3 == 0 and len(c):
            c.append(c[0])
        elif a["opt"] % 3 == 1 and len(c) > 1:
            del c[0]
        c.write(one)
        print mark

    def go_ptc():
        from daeso.ptc.document import HitaextDoc
        d = HitaextDoc(file=one)
        if a["opt"] % 2:
            d.clear_alignments()
        d.set_pseudo_root("from", "root%d" % a["opt"])
        d.write(one)
        print mark
    return go_ptc if "docs" in plan else go_pgc


def start(plan, files, a, p):
    import seams
    if a["tool"] == "edit":
        out = seams.attempt(p, edit(plan, files, a), fresh=True, end=True)
    else:
        out = seams.run_tool(p, a["tool"] + ".py", command(plan, files, a))
    return out


class Done(object):
    "how a process ended and what it wrote"

    def __init__(self, out, p, watch):
        watch.look()
        self.out = out
        self.kind = out.kind
        self.good = not out.failed and out.kind != "crash" and \
            not T.quiet(p).strip()
        self.text = p.stdout.getvalue() if self.good else ""
        self.wrote = {}
        for path, vs in watch.versions.items():
            mine = [v[3] for v in vs if v[1] == p.name]
            if mine:
                self.wrote[path] = mine
        self.steps = p.steps


# --------------------------------------------------------------------------
# alone
# --------------------------------------------------------------------------

_memo = {}


def alone(plan, a, state):
    "what a process does alone on these files"
    import lib
    key = canon([a, sorted((k, v and v.decode("latin-1"))
                           for k, v in state.items())])
    if key not in _memo:
        keep = list(lib._WORLDS)
        w = mkworld(plan)
        files = setup(plan, w)
        for p, data in state.items():
            if data is None:
                w.fs.unlink(p)
            else:
                w.fs.put(p, data)
        watch = procs.Watch(w.fs)
        before = w.fs.listing()
        w.fs.mkdirs(plan["cwd"])
        p = w.spawn("p", plan["cwd"])
        p.number = 1000         # not the pid of a process that crashed
        watch.attach(p)
        out = start(plan, files, a, p)
        d = Done(out, p, watch)
        d.marks = marks(p)
        d.hot = list(watch.writes)
        d.err = p.stderr.getvalue() + (out.tb or "")
        if out.kind == "hang":
            violate("hang", "%r %r" % (a, out))
        lib._WORLDS[:] = keep
        d.then = lasting(d, before)
        left = set(w.fs.listing()) - set(before) - set(d.then)
        if left:
            violate("left", "%s alone leaves %s" % (canon(a), sorted(left)))
        one_go(a, d, d.then)
        _memo[key] = d
    return _memo[key]


def lasting(d, before):
    "the files a process made, other than those it removed again"
    return dict((k, v[-1]) for k, v in d.wrote.items()
                if v[-1] is not None or k in before)


def one_go(a, d, paths):
    "every file appears in one go"
    for path in sorted(paths):
        vs = d.wrote.get(path, ())
        if len(vs) > 1:
            violate("partial", "%s: others see %s change %d times: sizes %s"
                    % (canon(a), path, len(vs), canon(
                        [len(v) if v is not None else None for v in vs])))


# --------------------------------------------------------------------------
# together
# --------------------------------------------------------------------------

_base = [None]


def run(plan):
    key = canon(dict((k, v) for k, v in plan.items()
                     if k not in ("faults", "preempt", "actors")))
    if _base[0] != key:
        _memo.clear()
        _base[0] = key
    if not plan["actors"]:
        raise Discard()
    for i in plan["faults"]:
        if int(i) >= len(plan["actors"]):
            raise Discard()
    # alone first, for a start; most tools can be used
    for a in plan["actors"]:
        alone(plan, a, {})
    w = mkworld(plan)
    files = setup(plan, w)
    fs = w.fs
    fs.mkdirs(plan["cwd"])
    before = fs.listing()
    watch = procs.Watch(fs)
    sched = procs.Turns(plan["preempt"], budget=100000)
    done = [None] * len(plan["actors"])
    span = [[None, None] for _ in done]
    ps = []
    for i, a in enumerate(plan["actors"]):
        p = w.spawn("p%d" % i, plan["cwd"], plan["faults"].get(str(i), ()))

        def turn(proc, kind, path):
            sched.point()
        p.hooks.append(("*", turn))
        watch.attach(p)
        ps.append(p)

        def go(i=i, a=a, p=p):
            watch.look()
            span[i][0] = watch.now
            out = start(plan, files, a, p)
            done[i] = Done(out, p, watch)
            watch.look()
            span[i][1] = watch.now
        sched.spawn(go)
    sched.run()
    after = fs.listing()
    probes(w, sched)
    crashed = [d for d in done if d.kind == "crash"]
    ok = set(before)
    for i, a in enumerate(plan["actors"]):
        judge(w, plan, a, done[i], ps[i], span[i], watch, before, ok)
    undone = [f for f in w.fault_counts if f.endswith(":unlink")]
    for x in sorted(set(after) - ok):
        if not crashed and not undone:
            violate("left", "%s is left behind by %s" % (
                x, canon(plan["actors"])))
    return {"nt": bool(plan["preempt"]), "steps": dict(
        [("a%d" % i, marks(p)) for i, p in enumerate(ps)] +
        [("total", sched.points), ("hot", watch.writes),
                     ("reads", watch.reads)])}


def probes(w, sched):
    w.probe("switches", sched.switches)


def candidates_of(plan, me, span, watch):
    """
    states that may explain a run: {path: contents} for the files that changed
    while it ran; first those that existed at one moment
    """
    ways = {}
    times = set([span[0]])
    for path, vs in watch.versions.items():
        if vs[0][3] is None and vs[-1][3] is None:
            continue            # a temporary file
        vs = [v for v in vs if v[1] != me]
        if len(vs) < 2:
            continue            # nobody else touches it
        vals = []
        for j, v in enumerate(vs):
            end = vs[j + 1][0] if j + 1 < len(vs) else None
            if v[0] <= span[1] and (end is None or end >= span[0]):
                vals.append((v[0], end, v[3]))
                if v[0] > span[0]:
                    times.add(v[0])
        ways[path] = vals
    paths = sorted(ways)
    seen = set()
    for t in sorted(times):
        c = tuple([x for s, e, x in ways[p] if s <= t][-1] for p in paths)
        if c not in seen:
            seen.add(c)
            yield dict(zip(paths, c))
    n = 0
    for c in itertools.product(*[[v[2] for v in reversed(ways[p])]
                                 for p in paths]):
        n += 1
        if n > 80:
            break
        if c not in seen:
            seen.add(c)
            yield dict(zip(paths, c))
    if n > 80:
        yield None


def judge(w, plan, a, d, p, span, watch, before, ok):
    what = "%s while others ran (%s, %s): %r" % (
        canon(a), canon([x for x in plan["actors"] if x is not a]),
        canon(plan["preempt"]), d.out)
    if d.kind == "hang":
        violate("hang", what)
    if isinstance(d.out.exc, (Violation, HarnessError)):
        raise d.out.exc
    hit = bool(p.fired)
    wrote = lasting(d, before)
    if d.kind == "crash" and not hit:
        raise HarnessError("crash without a fault")
    why = None
    tried = 0
    for state in candidates_of(plan, p.name, span, watch):
        if state is None:
            w.probe("undecided")
            return ok.update(wrote)
        tried += 1
        try:
            x = alone(plan, a, state)
        except Violation, e:
            why = "alone: " + e.msg
            continue
        finally:
            import seams
            seams._cur[0] = None
        then = x.then
        ok.update(then)
        one_go(a, d, set(then) | set(before))
        if hit and not d.good:
            # part of it may have been done
            bad = [k for k in wrote if wrote[k] != then.get(k, 0) and
                   (k in then or k in before)]
            if not bad:
                w.probe("explained")
                return
            why = "%s is not what it would have written" % bad
            continue
        if d.good != x.good:
            why = "%s, alone %s" % (
                "succeeds" if d.good else "fails: " + p.stderr.getvalue() +
                (d.out.tb or ""), "succeeds" if x.good else "fails: " + x.err)
            continue
        if c22.lines(d.text) != c22.lines(x.text):
            why = "other output\n%s\n%s" % (brief(d.text, 1500),
                                            brief(x.text, 1500))
            continue
        if wrote != then:
            why = "other files\n" + brief(first_diff(
                norm_files(wrote), norm_files(then)) or "", 1500)
            continue
        w.probe("explained")
        if tried > 1:
            w.probe("explained by an earlier state")
        return
    violate("torn", "%s\nno versions of the files explain this (%d tried): %s"
            % (what, tried, why))


def norm_files(x):
    return dict((k, v and v.decode("latin-1")) for k, v in x.items())
