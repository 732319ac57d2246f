# -*- coding: utf-8 -*-
"""
C08 moving and copying corpora keeps their graphbank references right
"""
import copy
import posixpath
from lib import *
import model as M

SHRINK = ("ops", "files", "model.pairs", "model.pairs.*.align",
          "model.banks.*.graphs", "faults")
SIMPLER = (("model.meta", [None]), ("model.pairs.*.meta", [None]),
           ("files.*.style", [M.PLAINSTYLE]), ("world.buf", [4096]))

TREES = ["/data/a", "/data/b", "/srv"]
DIRS = ["/data/a", "/data/a/pgc", "/data/a/gb", "/data/b", "/data/b/x y",
        "/srv", "/srv/deep/er", "/work"]
LINKS = {"/ln": "/data/a", "/data/b/up": "../a/pgc", "/srv/l": "/work"}


def gen(rng, tier):
    m = M.gen_model(rng, maxbanks=3, maxgraphs=2, maxpairs=4, minpairs=1,
                    maxnodes=4, dirs=["/data/a/gb", "/data/a", "/data/b",
                                      "/srv/deep/er"])
    files = []
    for i in range(rng.int(1, 2)):
        files.append({"name": "c%d.pgc" % i, "dir": rng.choice(DIRS),
                      "style": dict(M.gen_style(rng), pad=False)})
    ops = []
    for _ in range(rng.int(1, 6)):
        k = rng.weighted([("cp", 6), ("chdir", 3), ("mv", 2), ("pack", 1),
                          ("copies", 2)])
        if k == "cp":
            op = ["cp", rng.below(16), rng.choice(DIRS),
                  rng.choice(["dir", "dir", "c1.pgc", "new.pgc"]),
                  rng.chance(0.5), rng.below(8), rng.choice(DIRS),
                  rng.chance(0.4)]
        elif k == "copies":
            op = ["copies", rng.choice(DIRS), rng.chance(0.5),
                  rng.choice(DIRS), rng.below(8), rng.chance(0.25)]
        elif k == "chdir":
            op = ["chdir", rng.below(16), rng.below(1000), rng.below(9),
                  rng.choice(["/new/place", "../gb2", "x", "", "/data",
                              "/new/place/", "../"]),
                  rng.choice(DIRS), rng.below(8), rng.chance(0.2)]
        elif k == "mv":
            op = ["mv", rng.choice(TREES), rng.choice(["/moved", "/data/c",
                                                       "/m/n/o"])]
        else:
            op = ["pack", rng.below(16)]
        ops.append(op)
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([64, 512, 4096])},
            "model": m, "files": files, "ops": ops, "faults": shorts(rng, 0.3),
            "crash": [rng.int(1, 300), rng.below(1 << 16)]
            if rng.chance(0.3) else None,
            "cwd": rng.choice(DIRS), "via": rng.below(8)}


def R(fs, path):
    "the canonical path of a file that need not exist"
    cur = ""
    todo = [x for x in path.split("/") if x and x != "."]
    n = 0
    while todo:
        n += 1
        if n > 200:
            return path
        x = todo.pop(0)
        if x == "..":
            cur = posixpath.dirname(cur) if cur else ""
            if cur == "/":
                cur = ""
            continue
        nxt = cur + "/" + x
        node = fs.lookup(nxt, False)
        if node is not None and node.kind == "l":
            t = node.target
            todo = [y for y in t.split("/") if y and y != "."] + todo
            if t.startswith("/"):
                cur = ""
            continue
        cur = nxt
    return cur or "/"


class State(object):

    def __init__(self, pairs, meta, rels, text):
        self.pairs, self.meta, self.rels, self.text = pairs, meta, rels, text


def names(fs, path, cwd, n):
    "a way to name a file"
    c = [path, path, posixpath.relpath(path, R(fs, cwd))]
    for ln in sorted(LINKS):
        t = R(fs, ln)
        if path.startswith(t + "/") and fs.lookup(ln):
            c.append(ln + path[len(t):])
            c.append(posixpath.relpath(ln + path[len(t):], R(fs, cwd)))
    return c[n % len(c)]


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    m = plan["model"]
    if not m["pairs"]:
        raise Discard()
    for d in DIRS:
        fs.mkdirs(d)
    for ln in sorted(LINKS):
        fs.symlink(LINKS[ln], ln)
    M.put_banks(fs, m)
    data = [M.bank_file(b) for b in m["banks"]]
    state = {}
    for f in plan["files"]:
        P = f["dir"] + "/" + f["name"]
        fs.put(P, M.corpus_xml(m, P, f["style"]))
        text = {}
        for i, b in enumerate(m["banks"]):
            text[i] = b["path"] if f["style"]["abs"] else \
                posixpath.relpath(b["path"], f["dir"])
        state[P] = State(m["pairs"], m["meta"], m["relations"], text)
    crash = plan["crash"]
    verify(w, state, m, data, plan, 0)
    for n, op in enumerate(plan["ops"]):
        if not state:
            break
        k = op[0]
        paths = sorted(state)
        if k in ("cp", "copies"):
            if k == "cp":
                P = paths[op[1] % len(paths)]
                srcs, d, over, cwd, rel = [P], op[2], op[4], op[6], op[5]
                one = op[3]
            else:
                srcs, d, over, cwd, rel = paths, op[1], op[2], op[3], op[4]
                one = "dir"
            if fs.lookup(d) is None or fs.lookup(cwd) is None:
                continue
            d = R(fs, d)
            targ = d if one == "dir" else d + "/" + one
            argv = (["-o"] if over else []) + \
                [names(fs, s, cwd, rel + i) for i, s in enumerate(srcs)] + \
                [names(fs, targ, cwd, rel) if one != "dir" else targ]
            if k == "copies" and op[5:] == [True] and len(srcs) > 1:
                # several files cannot become one
                targ = d + "/" + srcs[0][-6:]
                if srcs[0][-6:-5] != "c":
                    targ = d + "/new.pgc"
                listing = fs.listing()
                out, proc = tool(w, "pgc_cp.py", argv[:-1] + [targ],
                                 "cp%d" % n, cwd)
                if not out.failed or fs.listing() != listing:
                    violate("merged", "pgc_cp %r: %r" % (argv[:-1] + [targ],
                                                         out))
                continue
            new = {}
            before = dict((p, state[p]) for p in state)
            quiet = True
            for s in srcs:
                t = targ + "/" + posixpath.basename(s) if one == "dir" \
                    else targ
                cur = new.get(t, before.get(t))
                if t == s or (cur is not None and not over):
                    quiet = False
                    continue
                src = new.get(s, before[s])
                used = set()
                for p in src.pairs:
                    used.update(p["b"])
                text = {}
                for i in used:
                    x = src.text[i]
                    if isinstance(x, list):
                        x = x[1]
                    if not x.startswith("/"):
                        x = posixpath.join(posixpath.dirname(s), x)
                    text[i] = ["rel", R(fs, x)]
                new[t] = State(src.pairs, src.meta, src.rels, text)
            faults = []
            if crash and n == len(plan["ops"]) // 2:
                faults = [{"at": crash[0], "f": "crash", "a": crash[1]}]
            out, proc = tool(w, "pgc_cp.py", argv, "cp%d" % n, cwd, faults)
            if proc.dead:
                old = {}
                for t in new:
                    got = M.parse_corpus(fs.get(t) or "", t)
                    if got is None and fs.get(t) is not None:
                        violate("damaged", "%s is not a corpus" % t)
                    if fs.get(t) is None:
                        if t in before:
                            violate("lost", "%s is gone" % t)
                    elif same(fs, t, got, new[t], m) is None:
                        state[t] = new[t]
                tidy(fs)
                verify(w, state, m, data, plan, n + 1)
                # once more; nothing is in the way now
                argv = ["-o"] + [a for a in argv if a != "-o"]
                if k == "copies" or not over:
                    continue
                out, proc = tool(w, "pgc_cp.py", argv, "cp%d" % n, cwd)
            if out.failed:
                violate("failed", "pgc_cp %r: %r %s" % (
                    argv, out, proc.stderr.getvalue()))
            if quiet == bool(proc.stderr.getvalue()):
                violate("quiet", "pgc_cp %r says %r" % (
                    argv, proc.stderr.getvalue()))
            state.update(new)
        elif k == "chdir":
            P = paths[op[1] % len(paths)]
            st = state[P]
            idx = sorted(st.text)
            cwd = op[5]
            if not idx or fs.lookup(cwd) is None:
                continue
            real = texts(fs, P, st)
            x = real[idx[op[2] % len(idx)]]
            parts = x.split("/")
            pre = "/".join(parts[:op[3] % (len(parts) + 1)])
            if op[3] == 5:
                # occurs in it, but not at the start
                pre = "/".join(parts[1 + op[2] % max(1, len(parts) - 1):])
            if not pre and op[3] == 5:
                pre = "nothing/like/it"
            to = op[4]
            if op[3] in (6, 7):
                # with the slash
                pre = "/".join(parts[:1 + op[2] % (len(parts) - 1)]) + "/" \
                    if len(parts) > 1 else ""
            elif op[3] == 8:
                pre = x[:op[2] % len(x)]    # in the middle of a name
            test = op[7]
            argv = ["-p", pre, to] + (["-t"] if test else []) + \
                [names(fs, P, cwd, op[6])]
            if pre.startswith("-") or to.startswith("-"):
                continue
            new = {}
            for i in idx:
                t = real[i]
                new[i] = to + t[len(pre):] if t.startswith(pre) else t
            if not all(t.strip() for t in new.values()):
                continue
            before = fs.get(P)
            out, proc = tool(w, "pgc_chdir.py", argv, "chdir%d" % n, cwd)
            if out.failed:
                violate("failed", "pgc_chdir %r: %r %s" % (
                    argv, out, proc.stderr.getvalue()))
            if test:
                if fs.get(P) != before:
                    violate("dry-run", "%s changed" % P)
            else:
                state[P] = State(st.pairs, st.meta, st.rels, new)
        elif k == "mv":
            src, dst = op[1], op[2]
            if fs.lookup(src) is None or fs.lookup(dst) is not None:
                continue
            fs.mkdirs(posixpath.dirname(dst))
            real = dict((p, texts(fs, p, state[p])) for p in state)
            fs.rename(src, dst)
            ns = {}
            for p, st in state.items():
                q = dst + p[len(src):] if p.startswith(src + "/") else p
                ns[q] = State(st.pairs, st.meta, st.rels, real[p])
            state.clear()
            state.update(ns)
        elif k == "pack":
            # all graphbanks next to the corpus, and gone from their places
            P = paths[op[1] % len(paths)]
            st = state[P]
            real = texts(fs, P, st)
            base = [posixpath.basename(real[i]) for i in real]
            if len(set(base)) != len(base):
                continue
            d = posixpath.dirname(P)
            for i in real:
                q = d + "/" + posixpath.basename(real[i])
                if fs.lookup(q) is not None or q in state:
                    break
                loc = R(fs, posixpath.join(d, real[i]))
                if fs.get(loc) == data[i]:
                    fs.put(q, data[i])
        verify(w, state, m, data, plan, n + 1)
    return {"nt": len(plan["ops"]) > 0}


def tidy(fs):
    "leftovers of a crash"
    for p in fs.files():
        if p.endswith(".tmp"):
            fs.unlink(p)


def texts(fs, P, st):
    "the references in a file, as they are written there"
    got = M.parse_corpus(fs.get(P), P)
    by = {}
    for e in got["entries"]:
        by[e[0]] = e[1]
    out = {}
    where = {}
    for i, t in st.text.items():
        if isinstance(t, list):
            for e in got["entries"]:
                if R(fs, posixpath.join(posixpath.dirname(P), e[1])) == t[1]:
                    out[i] = e[1]
        else:
            out[i] = t
    return out


def same(fs, P, got, st, m):
    "None when the parsed file is as it should be"
    d = posixpath.dirname(P)
    entries = dict((e[0], e[1:]) for e in got["entries"])
    if len(entries) != len(got["entries"]):
        return "ids are not unique"
    seen = []
    for i, t in st.text.items():
        hit = []
        for e in sorted(entries):
            text = entries[e][0]
            if isinstance(t, list):
                ok = not text.startswith("/") and \
                    R(fs, posixpath.join(d, text)) == t[1]
            else:
                ok = text == t
            if ok:
                hit.append(e)
        if not hit:
            return "no reference %r among %r" % (t, got["entries"])
        seen.extend(hit)
    if len(entries) != len(st.text):
        return "%d references, not %d" % (len(entries), len(st.text))
    if canon(got["relations"]) != canon(sorted(st.rels)):
        return "relations"
    if canon(got["meta"]) != canon(M.c_meta(st.meta)):
        return first_diff(M.c_meta(st.meta), got["meta"])
    want = M.expect(dict(m, pairs=st.pairs), False)
    for a, b in zip(want["pairs"], got["pairs"]):
        a.pop("b")
        b = dict(b)
        b.pop("b")
        if canon(a) != canon(b):
            return first_diff(a, b)
    if len(want["pairs"]) != len(got["pairs"]):
        return "%d pairs" % len(got["pairs"])
    return None


def verify(w, state, m, data, plan, step):
    fs = w.fs
    cwd = plan["cwd"] if fs.lookup(plan["cwd"]) else "/"
    s = Session(w, "look%d" % step, cwd, plan["faults"])
    for P in sorted(state):
        st = state[P]
        raw = fs.get(P)
        if raw is None:
            violate("lost", "%s is gone" % P)
        got = M.parse_corpus(raw, P)
        if got is None:
            violate("damaged", "%s is not a corpus" % P)
        d = same(fs, P, got, st, m)
        if d:
            violate("content", "%s: %s" % (P, d))
        real = texts(fs, P, st)
        loc = {}
        relaxed = {}
        pd = posixpath.dirname(P)
        for i in real:
            loc[i] = R(fs, posixpath.join(pd, real[i]))
            near = pd + "/" + posixpath.basename(loc[i])
            relaxed[i] = loc[i] if fs.lookup(loc[i]) else R(fs, near)
            if bool(fs.lookup(posixpath.join(pd, real[i]))) != \
                    bool(fs.lookup(loc[i])):
                # like /none/../data: whether that exists is a matter of taste
                relaxed = None
                break
        if relaxed is None:
            for i in real:
                loc[i] = R(fs, posixpath.join(pd, real[i]))
        if len(set(loc.values())) != len(loc):
            continue        # made to coincide by a change of prefix
        name = names(fs, P, cwd, plan["via"])
        for mode, relax in ((3, False), (2, False), (3, True), (2, True)):
            places = relaxed if relax else loc
            if places is None:
                continue

            def load():
                from daeso.pgc.corpus import ParallelGraphCorpus
                c = ParallelGraphCorpus()
                c.read(name, graph_loading=mode, relax_gb_paths=relax)
                return c
            if mode == 2:
                there = [fs.get(places[i]) for i in places]
                if None in there:
                    out = s.do(load)
                    if out.kind != "exc":
                        violate("missing", "%s loads without its graphbanks"
                                % P)
                    continue
                if [x for i, x in zip(places, there) if x != data[i]]:
                    continue        # points to something else by now
            c = s.must("load", load)
            got = s.must("inspect", M.snap, c, mode == 2)
            pm = dict(m, pairs=st.pairs, meta=st.meta)
            want = M.expect(pm, mode == 2,
                            [places.get(i) for i in range(len(m["banks"]))])
            if canon(got) != canon(want):
                violate("loaded", "%s: %s" % (P, first_diff(want, got)))
    s.end()
