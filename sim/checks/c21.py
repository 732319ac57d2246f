# -*- coding: utf-8 -*-
"""
C21 creating directories and expanding patterns is deterministic and honest

Each operation runs while another process makes and removes files and
directories between its system calls.
"""
import posixpath
from lib import *

SHRINK = ("ops", "ops.*.other", "ops.*.faults", "tree", "ops.*.patterns")
SIMPLER = (("cwd", ["/work"]), ("umask", [0o22]))

NAMES = ["a", "b", "ab", "c.pgc", "a1.pgc", "b.xml", ".h.pgc", "d d", "Z"]
LITS = ["a", "b", "ab", "c.pgc", "..", ".", "d d"]
PATS = ["*", "*", "?", "a*", "*.pgc", "*.p?c", "[ab]", "[!a]*", "?*", ".*",
        "*b*", "[a-b]*.pgc", "**", "Z", "z*"]


def gen_path(rng, n, names):
    return "/".join(rng.choice(names) for _ in range(n))


def gen_dir(rng):
    p = gen_path(rng, rng.int(1, 4), ["a", "b", "c", "d d", "a"])
    if rng.chance(0.1):
        p = p + "/" + rng.choice(["..", "."]) + "/b"
    if rng.chance(0.15):
        p += "/"
    if rng.chance(0.3):
        p = rng.choice(["/work/", "/", "../", "./", "/ln/"]) + p
    if rng.chance(0.05):
        p = rng.choice([".", "/", "..", "/work", "", "/ln"])
    return p


def gen_pattern(rng):
    n = rng.weighted([(1, 4), (2, 5), (3, 3)])
    segs = [rng.choice(PATS) if rng.chance(0.6) else rng.choice(LITS)
            for _ in range(n)]
    p = "/".join(segs)
    if rng.chance(0.1):
        p += "/"
    if rng.chance(0.3):
        p = rng.choice(["/work/", "/", "../", "./", "/ln/"]) + p
    return p


def gen_other(rng, o):
    "what the other process does, and before which of our system calls"
    out = []
    if not o["other"]:
        return out
    for _ in range(rng.int(1, 3)):
        k = rng.choice(o["acts"])
        out.append([rng.int(1, 9), k, rng.below(1 << 16)])
    return out


def gen(rng, tier):
    tree = []
    for _ in range(rng.below(14)):
        p = gen_path(rng, rng.int(1, 3), NAMES)
        k = rng.weighted([("d", 4), ("f", 5), ("l", 1)])
        tree.append([k, "/work/" + p,
                     rng.choice(["/work/a", "b", "nowhere", "/x", ".."])])
    ops = []
    for _ in range(rng.int(2, 6)):
        o = {"other": rng.chance(0.6),
             "acts": rng.choice([["mkdir"], ["mkdir", "rm"],
                                 ["mkdir", "rm", "file"], ["rm"],
                                 ["file", "rmfile"]])}
        op = {"k": rng.choice(["makedirs", "makedirs", "glob", "multiglob"]),
              "other": gen_other(rng, o), "faults": []}
        if op["k"] == "makedirs":
            op["path"] = gen_dir(rng)
            op["mode"] = rng.choice([None, None, 0o777, 0o700, 0o750])
        else:
            op["patterns"] = [gen_pattern(rng) for _ in range(
                1 if op["k"] == "glob" else rng.below(4))]
        ops.append(op)
    return {"world": {"seed": rng.below(1 << 30)}, "tree": tree, "ops": ops,
            "cwd": rng.choice(["/work", "/work", "/work/a", "/"]),
            "umask": rng.choice([0o22, 0o22, 0, 0o77])}


def faults(rng, plan, base, tier):
    out = []
    made = [i for i, op in enumerate(plan["ops"]) if op["k"] == "makedirs"]
    for _ in range(3 if tier == "quick" else 12):
        p = norm(plan)
        for _ in range(rng.int(1, 2)):
            op = rng.choice(p["ops"])
            if not op["other"] or rng.chance(0.7):
                op["other"] = gen_other(rng, {
                    "other": 1, "acts": rng.choice(
                        [["mkdir"], ["mkdir", "rm"], ["rm", "file"]])})
        if made and rng.chance(0.4):
            op = p["ops"][rng.choice(made)]
            op["faults"] = [{"k": "mkdir", "at": rng.int(1, 3),
                             "f": rng.choice(["err", "err", "crash"]),
                             "a": rng.below(1 << 16)}]
        out.append(p)
    return out


# --------------------------------------------------------------------------
# which names match a pattern, without regular expressions
# --------------------------------------------------------------------------

def match1(pat, name):
    "does one component match"
    if not pat:
        return not name
    c = pat[0]
    if c == "*":
        return any(match1(pat[1:], name[i:]) for i in range(len(name) + 1))
    if not name:
        return False
    if c == "?":
        return match1(pat[1:], name[1:])
    if c == "[":
        end = pat.find("]", 3 if pat[1:2] == "!" else 2)
        body = pat[1:end]
        neg = body.startswith("!")
        if neg:
            body = body[1:]
        chars = set()
        i = 0
        while i < len(body):
            if body[i + 1:i + 2] == "-" and i + 2 < len(body):
                chars.update(chr(x) for x in
                             range(ord(body[i]), ord(body[i + 2]) + 1))
                i += 3
            else:
                chars.add(body[i])
                i += 1
        return (name[0] in chars) != neg and match1(pat[end + 1:], name[1:])
    return c == name[0] and match1(pat[1:], name[1:])


def magic(s):
    return any(c in s for c in "*?[")


def expand(fs, cwd, pattern):
    "the set of paths that match"
    segs = pattern.split("/")
    found = [""]
    if segs[0] == "":
        found = ["/"]
        segs = segs[1:]
    for i, seg in enumerate(segs):
        last = i == len(segs) - 1
        nxt = []
        for d in found:
            if seg == "":
                # only a trailing slash
                n = fs.lookup(d or ".", True, cwd)
                if n is not None and n.kind == "d":
                    nxt.append(d)
            elif not magic(seg):
                if not last or fs.lookup(d + seg, False, cwd) is not None:
                    nxt.append(d + seg)
            else:
                n = fs.lookup(d or ".", True, cwd)
                if n is None or n.kind != "d":
                    continue
                for name in sorted(n.entries):
                    if name.startswith(".") and not seg.startswith("."):
                        continue
                    if match1(seg, name):
                        nxt.append(d + name)
        found = nxt if last else [x + "/" for x in nxt]
    return set(found)


# --------------------------------------------------------------------------

def kill(fs, path):
    parent, name, node = fs.walk(path, False)
    if node is not None and name and name != "..":
        del parent.entries[name]


def act(fs, cwd, op, kind, a):
    "one action of the other process; whatever it cannot do it leaves"
    if op["k"] == "makedirs":
        path = op["path"].rstrip("/")
        full = posixpath.normpath(posixpath.join(cwd, path))
        parts = [x for x in full.split("/") if x]
        floor = 1 if parts[:1] in (["work"], ["ln"]) else 0
        n = floor + 1 + a % max(1, len(parts) - floor)
        target = "/" + "/".join(parts[:n])
    else:
        x = Rng("act", a)
        target = "/work/" + gen_path(x, x.int(1, 3), NAMES)
    if target in ("/", "/work", "/ln", cwd) or \
            (cwd + "/").startswith(target + "/"):
        return False
    try:
        node = fs.lookup(target, False)
        up = cwd
        while node is not None and len(up) > 1:
            if fs.lookup(up) is node:
                return False        # the working directory, by another name
            up = posixpath.dirname(up)
        if kind == "mkdir":
            if node is None:
                fs.mkdirs(target)
        elif kind == "rm" or (kind == "rmfile" and node is not None and
                              node.kind == "f"):
            kill(fs, target)
        elif kind == "file":
            if node is None:
                fs.walk(target)
                fs.put(target, "x")
    except (OSError, AttributeError):
        return False
    return True


def isdir(fs, cwd, path):
    n = fs.lookup(path, True, cwd) if path else None
    return n is not None and n.kind == "d"


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    fs.mkdirs("/work/a")
    fs.symlink("/work", "/ln")
    for k, path, target in plan["tree"]:
        try:
            if k == "d":
                fs.mkdirs(path)
            elif fs.lookup(path, False) is None:
                if k == "f":
                    fs.put(path, "x")
                else:
                    fs.symlink(target, path)
        except (OSError, AttributeError):
            pass
    cwd = plan["cwd"]
    s = Session(w, "p", cwd)
    s.p.umask = plan["umask"]
    for op in plan["ops"]:
        if op["k"] == "makedirs":
            r = do_makedirs(w, s, cwd, op, plan["umask"])
            if r == "crash":
                break
        else:
            do_glob(w, s, cwd, op)
    return {"nt": bool(plan["ops"])}


def watch(w, s, cwd, op, snap):
    "install the other process; -> [snap before anything, after each action]"
    start = s.p.steps
    todo = sorted(op["other"])
    seen = [snap()]
    acted = []

    def hook(p, kind, path):
        while todo and p.steps - start >= todo[0][0]:
            n, k, a = todo.pop(0)
            if act(w.fs, cwd, op, k, a):
                acted.append(k)
                w.probe("other:" + k)
            seen.append(snap())

    s.p.hooks[:] = [("*", hook)]
    return seen, acted


def do_makedirs(w, s, cwd, op, umask):
    fs = w.fs
    path = op["path"]
    if path.endswith("/."):
        raise Discard()
    before = fs.listing()

    def snap():
        return isdir(fs, cwd, path), fs.listing()
    old = [fs.lookup(p, False) for p in before]
    seen, acted = watch(w, s, cwd, op, snap)
    s.p.kindsteps.clear()
    s.p.faults = [dict(f) for f in op["faults"]]
    s.p.fired = []

    def go():
        from daeso.utils.opsys import makedirs
        if op["mode"] is None:
            makedirs(path)
        else:
            makedirs(path, op["mode"])
    out = s.do(go)
    s.p.hooks[:] = []
    s.p.faults = []
    now = isdir(fs, cwd, path)
    if out.kind == "crash":
        return "crash"
    if out.kind == "hang":
        violate("hang", "makedirs(%r)" % path)
    what = "makedirs(%r) in %s: %r" % (path, cwd, out)
    if out.kind == "ok":
        w.probe("made")
        if not now:
            violate("silent", what + ", but there is no such directory")
        if not seen[0][0] and not acted:
            mode = (0o777 if op["mode"] is None else op["mode"]) & ~umask
            node = fs.lookup(path, True, cwd)
            # "d/../e" makes d, and finds e
            if node not in old and node.mode & 0o777 != mode:
                violate("mode", what + ": mode %o, not %o"
                        % (node.mode & 0o777, mode))
    else:
        w.probe("not made")
        if not isinstance(out.exc, OSError):
            violate("error", what + "\n%s" % out.tb)
        if all(x[0] for x in seen) and not s.p.fired:
            violate("refused", what + ", but the directory is there")
        if not s.p.fired and not set(acted) & set(["rm", "rmfile", "file"]) and \
                not obstacle(fs, cwd, path) and path:
            violate("refused", what + ", but nothing is in the way")
    # nothing else happened
    gone = "rm" in acted or "rmfile" in acted
    after = fs.listing()
    known = {}
    for x in seen:
        known.update(x[1])
    allowed = prefixes(fs, cwd, path)
    for p in sorted(after):
        if p not in known:
            if after[p] is not None or p not in allowed:
                violate("extra", what + ": made " + p)
        elif p in before and after[p] != before[p] and not gone:
            violate("changed", what + ": changed " + p)
    if not gone:
        for p in sorted(before):
            if p not in after:
                violate("lost", what + ": removed " + p)


def real(fs, cwd, path):
    "canonical path of what exists of it, '..' resolved in the file system"
    out = fs.lookup(path, True, cwd)
    if out is None:
        return None
    names = []
    while out is not fs.root:
        for k, v in out.parent.entries.items():
            if v is out:
                names.append(k)
                break
        else:
            return None
        out = out.parent
    return "/" + "/".join(reversed(names))


def prefixes(fs, cwd, path):
    res = set()
    parts = path.split("/")
    for i in range(1, len(parts) + 1):
        p = real(fs, cwd, "/".join(parts[:i]) or "/")
        if p:
            res.add(p)
    return res


def obstacle(fs, cwd, path):
    "is a component something else than a directory"
    parts = path.split("/")
    for i in range(1, len(parts) + 1):
        p = "/".join(parts[:i]) or "/"
        if fs.lookup(p, False, cwd) is not None and not isdir(fs, cwd, p):
            return True
    return False


def do_glob(w, s, cwd, op):
    fs = w.fs
    pats = op["patterns"]
    before = fs.listing()

    def snap():
        return [expand(fs, cwd, p) for p in pats]
    seen, acted = watch(w, s, cwd, op, snap)

    def go():
        from daeso.utils import opsys
        if op["k"] == "glob":
            return opsys.glob(pats[0])
        return opsys.multiglob(list(pats))
    got = s.must(op["k"], go)
    s.p.hooks[:] = []
    what = "%s(%r) in %s: %r" % (op["k"], pats, cwd, got)
    if not isinstance(got, list):
        violate("type", what)
    if got != sorted(got):
        violate("unsorted", what)
    must = set()
    may = {}
    for i in range(len(pats)):
        must |= set.intersection(*[x[i] for x in seen])
        for p in set.union(*[x[i] for x in seen]):
            may[p] = may.get(p, 0) + 1
    if may:
        w.probe("matches")
    for p in must:
        if p not in got:
            violate("missing", what + ": without " + p)
    for p in got:
        if p not in may:
            violate("wrong", what + ": " + p)
        if got.count(p) > may[p]:
            violate("repeated", what + ": " + p)
    if not acted and fs.listing() != before:
        violate("changed", what)
