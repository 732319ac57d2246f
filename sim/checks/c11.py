# -*- coding: utf-8 -*-
"""
C11 archives of corpora are complete and self-contained
"""
import copy
import posixpath
import StringIO
import zipfile
from lib import *
import model as M

SHRINK = ("faults", "files", "model.pairs", "model.pairs.*.align")
SIMPLER = (("files.*.style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("model.pairs.*.meta", [None]), ("world.buf", [4096]),
           ("bad", [None]), ("old", [None]), ("blinks", [[]]))

DIRS = ["/data/pgc", "/data/pgc/x y", "/work", "/srv"]
BDIRS = ["/data/gb", "/data/pgc", "/srv/deep/er"]


def gen(rng, tier):
    while True:
        m = M.gen_model(rng, maxbanks=4, maxgraphs=2, minpairs=1, maxpairs=6,
                        maxnodes=3, dirs=BDIRS)
        if m["pairs"]:
            break
    clash = rng.chance(0.15) and len(m["banks"]) > 1
    if clash:
        # the same file name in two directories
        a, b = m["banks"][0], m["banks"][-1]
        d = [x for x in BDIRS if x != posixpath.dirname(a["path"])]
        b["path"] = rng.choice(d) + "/" + posixpath.basename(a["path"])
    files = []
    for i in range(rng.int(1, 3)):
        files.append({
            "name": rng.choice(["c%d.pgc" % i, "corp-%d.xml" % i]),
            "dir": rng.choice(DIRS), "style": M.gen_style(rng),
            "pairs": sorted(rng.sample(range(len(m["pairs"])),
                                       rng.int(1, len(m["pairs"])))),
            "unused": rng.chance(0.4)})
    if len(files) > 1 and rng.chance(0.1):
        files[1]["name"] = files[0]["name"]
    elif rng.chance(0.05):
        files[0]["name"] = posixpath.basename(m["banks"][0]["path"])
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([64, 512, 4096])},
            "model": m, "files": files, "cwd": rng.choice(DIRS),
            "zip": rng.choice(["out.zip", "/data/arch/my.corp.zip",
                               "/work/a b.zip", "noext"]),
            "args": rng.choice(["names", "rel", "twice", "glob", "link"]),
            "old": rng.choice([None, None, "zip", "junk"]),
            "bad": rng.weighted([(None, 7), ("missing", 1), ("damaged", 1),
                                 ("bank", 1), ("dir", 1)]),
            "at": rng.below(64), "seed": rng.below(1 << 16),
            "blinks": [rng.choice(["file", "dir", "name"])
                       if rng.chance(0.5) else None for b in m["banks"]]
            if rng.chance(0.3) else [], "faults": []}


def faults(rng, plan, base, tier):
    out = []
    for _ in range(4 if tier == "quick" else 20):
        p = norm(plan)
        k = rng.weighted([("crash", 5), ("err", 5), ("short", 1), ("two", 1),
                          ("full", 2), ("intr", 1)])
        st = base["steps"]["zip"]
        if k == "full":
            p["quota"] = rng.below(rng.choice([100, 1000, 6000]))
        elif k == "two":
            p["faults"] = [place(rng, st, ("err",)), place(rng, st)]
        else:
            p["faults"] = [place(rng, st, (k,))]
        out.append(p)
    return out


def read_zip(data):
    "-> [[name, contents]] or None when it is no complete archive"
    try:
        z = zipfile.ZipFile(StringIO.StringIO(data), "r")
        if z.testzip() is not None:
            return None
        return sorted([i.filename, z.read(i.filename)] for i in z.infolist())
    except Exception:
        return None


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    if not m["pairs"] or not plan["files"]:
        raise Discard()
    for d in DIRS + ["/data/arch"]:
        fs.mkdirs(d)
    fs.symlink("/data/pgc", "/ln")
    M.put_banks(fs, m)
    # graphbanks that are known by symbolic links
    m = copy.deepcopy(m)
    for i, (b, how) in enumerate(zip(m["banks"], plan["blinks"])):
        d, n = posixpath.split(b["path"])
        x = "/data/links/%d" % i
        fs.mkdirs(x)
        if how == "dir":
            fs.symlink(d, x + "/d")
            b["path"] = x + "/d/" + n
        elif how:
            if how == "name":
                n = "other name.%d" % i
            fs.symlink(b["path"], x + "/" + n)
            b["path"] = x + "/" + n
    rng = Rng("zip", plan["seed"])
    cwd = plan["cwd"]
    want = {}               # name in the archive -> path
    clash = False
    subs = {}
    stem = posixpath.splitext(posixpath.basename(plan["zip"]))[0]
    for f in plan["files"]:
        path = f["dir"] + "/" + f["name"]
        if path in subs:
            continue
        pairs = [m["pairs"][i] for i in f["pairs"] if i < len(m["pairs"])]
        if not pairs:
            raise Discard()
        idx = sorted(set(i for p in pairs for i in p["b"]))
        if f["unused"]:
            idx = list(range(len(m["banks"])))
        sub = copy.deepcopy(dict(m, pairs=pairs))
        sub["banks"] = [m["banks"][i] for i in idx]
        for p in sub["pairs"]:
            p["b"] = [idx.index(i) for i in p["b"]]
        if fs.get(path) is not None:
            # a corpus in the place of a graphbank
            raise Discard()
        fs.put(path, M.corpus_xml(sub, path, f["style"]))
        subs[path] = sub
        for x in [path] + [b["path"] for b in sub["banks"]]:
            n = stem + "/" + posixpath.basename(x)
            if want.setdefault(n, x) != x:
                clash = True
    # how they are named
    args = []
    for path in sorted(subs):
        x = path
        if plan["args"] == "rel":
            x = posixpath.relpath(path, cwd)
        elif plan["args"] == "link" and path.startswith("/data/pgc/"):
            x = "/ln" + path[9:]
        elif plan["args"] == "glob":
            x = posixpath.dirname(path) + "/*" + posixpath.basename(path)[1:]
        args.append(x)
        if plan["args"] == "twice":
            args.append(posixpath.relpath(path, cwd))
    rng.shuffle(args)
    bad = plan["bad"]
    fail = clash
    if bad == "missing":
        args.insert(plan["at"] % (len(args) + 1), "/srv/no*such.pgc")
        fail = True
    elif bad == "damaged":
        p = sorted(subs)[plan["at"] % len(subs)]
        data = fs.get(p)
        fs.put(p, data[:plan["at"] * 31 % max(1, len(data.rstrip()) - 1)])
        fail = True
    elif bad == "bank":
        bs = sorted(set(b["path"] for s in subs.values() for b in s["banks"]))
        fs.unlink(bs[plan["at"] % len(bs)])
        fail = True
    target = posixpath.join(cwd, plan["zip"])
    if bad == "dir":
        target = "/no/such/dir/" + posixpath.basename(plan["zip"])
        fail = True
    if fs.get(target) is not None:
        raise Discard()
    old = None
    if plan["old"] and bad != "dir":
        old = "junk"
        if plan["old"] == "zip":
            b = StringIO.StringIO()
            s = Session(w, "old", "/")

            def mk():
                z = zipfile.ZipFile(b, "w")
                z.writestr("x/old.txt", "old " * 50)
                z.close()
            s.must("make", mk)
            s.end()
            old = b.getvalue()
        fs.put(target, old)
    before = fs.listing()
    argv = [target if bad == "dir" else plan["zip"]] + args
    w.quota = plan.get("quota")
    out, proc = tool(w, "pgc_zip.py", argv, "zip", cwd, plan["faults"])
    w.quota = None
    hit = bool(proc.fired) or plan.get("quota") is not None
    steps = {"zip": marks(proc)}
    if out.kind == "hang":
        violate("hang", repr(out))
    look(w, plan, target, before, old, want, subs, out, proc, hit, fail)
    if hit and not fail:
        # again, now that nothing is in the way
        out, proc = tool(w, "pgc_zip.py", argv, "again", cwd)
        look(w, plan, target, before, old, want, subs, out, proc, False, False)
    if fs.get(target) != old and not out.failed:
        unpack(w, plan, target, subs)
    return {"nt": True, "steps": steps}


def look(w, plan, target, before, old, want, subs, out, proc, hit, fail):
    fs = w.fs
    ok = out.kind in ("ok", "exit") and not out.failed
    for p, x in sorted(fs.listing().items()):
        if p in before:
            if p != target and before[p] != x:
                violate("changed", "%s changed" % p)
        elif p != target and p not in before:
            if not hit:
                violate("leftover", "%s after %r" % (p, out))
            if out.kind != "crash" and len(proc.fired) == 1 and \
                    not [k for k in w.fault_counts if ":unlink" in k]:
                violate("leftover", "%s after %r" % (p, out))
            if fs.get(p) is not None:
                fs.unlink(p)
    for p in before:
        if p not in fs.listing():
            violate("lost", p)
    data = fs.get(target)
    if fail and ok:
        violate("silent", "success in spite of a fault in the input")
    if not fail and not hit and not ok:
        violate("failed", "%r %s" % (out, proc.stderr.getvalue()))
    if data == old:
        if ok and not proc.stderr.getvalue().strip():
            violate("silent", "no archive, yet %r" % out)
        return
    if fail:
        violate("written", "an archive in spite of a fault in the input")
    s = Session(w, "unzip", "/")
    members = s.must("read archive", read_zip, data)
    s.end()
    if members is None:
        violate("damaged", "%s is no complete archive after %r"
                % (target, out))
    names = [n for n, x in members]
    if names != sorted(want):
        violate("members", "%r, should be %r" % (names, sorted(want)))
    for n, x in members:
        if x != fs.get(want[n]):
            violate("contents", n)


def unpack(w, plan, target, subs):
    "elsewhere, with the originals gone, it is the same corpus"
    fs = w.fs
    s = Session(w, "use", "/")
    members = s.must("read archive", read_zip, fs.get(target))
    d = "/else/where"
    for n, x in members:
        fs.mkdirs(posixpath.dirname(d + "/" + n))
        fs.put(d + "/" + n, x)
    fs.rename("/data", "/gone1")
    fs.rename("/srv", "/gone2")
    fs.rename("/work", "/gone3")
    stem = posixpath.splitext(posixpath.basename(plan["zip"]))[0]
    for path in sorted(subs):
        p = d + "/" + stem + "/" + posixpath.basename(path)
        sub = subs[path]
        for mode in (1, 2, 3):
            def load():
                from daeso.pgc.corpus import ParallelGraphCorpus
                c = ParallelGraphCorpus()
                c.read(p, graph_loading=mode, relax_gb_paths=True)
                return c
            c = s.must("load", load)
            got = s.must("inspect", M.snap, c, mode != 3)
            exp = M.expect(sub, mode != 3,
                           [posixpath.dirname(p) + "/" +
                            posixpath.basename(b["path"])
                            for b in sub["banks"]])
            if canon(got) != canon(exp):
                violate("unpacked", "%s: %s" % (p, first_diff(exp, got)))
    s.end()
