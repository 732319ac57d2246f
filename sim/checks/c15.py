# -*- coding: utf-8 -*-
"""
C15 parallel text documents survive saving, relocation and failures
"""
import posixpath
from lib import *
import model as M
import ptcm as T

SHRINK = ("faults", "ops", "doc.links", "doc.sides.0.elems",
          "doc.sides.1.elems", "more")
SIMPLER = (("style", [M.PLAINSTYLE]), ("doc.font", [[]]), ("link", [None]),
           ("quota", [None]), ("world.buf", [4096]), ("doc.method", [None]))

WIN = ["C:\\texts\\one.xml", "C:one.xml", "D:two.xml", "d:\\x\\b.xml", "Z", "Q:/x/y.xml",
       "\\\\srv\\t.xml"]
D = ["/data/ptc", "/data", "/work"]


def gen(rng, tier):
    doc = T.gen_doc(rng)
    for side in doc["sides"]:
        if rng.chance(0.3):
            side["file"] = rng.choice(WIN)      # also relative to a drive
    ops = [gen_op(rng) for _ in range(rng.below(7))]
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 4096])},
            "new": rng.chance(0.25), "doc": doc, "style": M.gen_style(rng),
            "ops": ops, "dir": rng.choice(D), "cwd": rng.choice(D),
            "rel": rng.chance(0.4), "link": rng.choice([None, None, "dir",
                                                        "file"]),
            "more": [T.gen_doc(rng) for _ in range(rng.below(3))],
            "end": rng.choice(["save", "save", "chdir", "chdir", "dry"]),
            "to": rng.choice([None, None, "/new/place", "rel/dir", "x/"]),
            "faults": [], "quota": None}


def gen_op(rng):
    k = rng.choice(["file", "root", "attr", "addelem", "method", "addn",
                    "addid", "addn", "clear", "del", "init", "save", "font"])
    side = rng.below(2)
    if k == "file":
        return [k, side, rng.choice([T.gen_file(rng)] + WIN)]
    if k == "root":
        return [k, side, rng.choice(T.TAGS)]
    if k == "attr":
        return [k, side, rng.below(8), rng.choice(["skip", "newline", "uniq"]),
                rng.choice(["True", "False"])]
    if k == "addelem":
        return [k, side, rng.choice(T.TAGS + ["new", "w2"])]
    if k == "method":
        return [k, rng.choice(["n", "id"])]
    if k == "addn":
        return [k] + [x[1] for x in T.gen_link(rng, "n")]
    if k == "addid":
        return [k] + [x[1] for x in T.gen_link(rng, "id")]
    if k == "del":
        return [k, rng.below(8)]
    if k == "init":
        return [k, side, T.gen_text(rng)]
    return [k]


def faults(rng, plan, base, tier):
    st = base["steps"]["p"]
    out = []
    for _ in range(5 if tier == "quick" else 20):
        p = norm(plan)
        k = rng.weighted([("crash", 5), ("err", 5), ("full", 2),
                          ("intr", 2)])
        if k == "full":
            p["quota"] = rng.below(rng.choice([30, 300, 1500]))
        else:
            p["faults"] = [place(rng, st, (k,))]
        out.append(p)
    return out


def apply(doc, d, op):
    "do an edit to the real document (if any) and the model"
    k = op[0]
    if k in ("file", "root", "attr", "addelem", "init"):
        side = T.SIDES[op[1]]
        s = d["sides"][op[1]]
    if k == "file":
        s["file"] = op[2]
        doc.set_filename(side, op[2])
    elif k == "root":
        s["root"] = op[2]
        doc.set_pseudo_root(side, op[2])
    elif k == "attr":
        if s["elems"]:
            t, a = s["elems"][op[2] % len(s["elems"])]
            a[:] = [x for x in a if x[0] != op[3]] + [[op[3], op[4]]]
            doc.get_elem(side, t).set(op[3], op[4])
    elif k == "addelem":
        if op[2] not in [t for t, a in s["elems"]]:
            s["elems"].append([op[2], [[x, "False"] for x in
                                       ("ignore", "skip", "newline",
                                        "blankline")]])
            e = doc.add_elem(side, op[2])
            if e.tag != op[2]:
                violate("add_elem", e.tag)
    elif k == "method":
        d["method"] = op[1]
        doc.set_alignment_method(op[1])
    elif k == "addn":
        d["links"].append([["from_tag", op[1]], ["from_n", op[2]],
                           ["to_tag", op[3]], ["to_n", op[4]]])
        doc.add_n_alignment(op[1], int(op[2]), op[3], op[4])
    elif k == "addid":
        d["links"].append([["from_tag", op[1]], ["from_id", op[2]],
                           ["to_tag", op[3]], ["to_id", op[4]]])
        doc.add_id_alignment(*op[1:])
    elif k == "clear":
        d["links"] = []
        doc.clear_alignments()
    elif k == "del":
        if d["links"]:
            i = op[1] % len(d["links"])
            del d["links"][i]
            a = doc.get_alignments()
            a.remove(a[i])
    elif k == "init":
        if not s["elems"]:
            import xml.etree.ElementTree as et
            seen = {}
            for e in T.walk(op[2]):
                if e[0] not in seen:
                    seen[e[0]] = [e[0], [["ignore", "False"],
                                         ["skip", "False"],
                                         ["newline", "False"],
                                         ["blankline", "False"],
                                         ["uniq", "True"]]]
                    s["elems"].append(seen[e[0]])
                else:
                    seen[e[0]][1][-1] = ["uniq", "False"]
            s["root"] = op[2][0]
            xml = M.Ser(M.PLAINSTYLE).doc(op[2])
            doc.init_elems(side, et.ElementTree(et.fromstring(xml)))
    elif k == "font":
        pass
    for i, side in enumerate(T.SIDES):
        for attr in ("uniq", "skip"):
            want = [t for t, a in d["sides"][i]["elems"]
                    if [attr, "True"] in map(list, a)]
            got = doc.get_tags(side, attr)
            if got != want:
                violate("get_tags", "%r, should be %r" % (got, want))
            if attr == "uniq" and doc.get_pseudo_root_tags(side) != want:
                violate("get_pseudo_root_tags", "")


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    for x in D:
        fs.mkdirs(x)
    name = plan["dir"] + "/doc.ptc"
    given = name
    if plan["link"] == "dir":
        fs.symlink(plan["dir"], "/ln")
        given = "/ln/doc.ptc"
    elif plan["link"] == "file":
        fs.symlink("doc.ptc", plan["dir"] + "/alias.ptc")
        given = plan["dir"] + "/alias.ptc"
    if plan["rel"]:
        given = posixpath.relpath(given, plan["cwd"])
    d = norm(plan["doc"])
    s = Session(w, "edit", plan["cwd"])
    if plan["new"]:
        def make():
            from daeso.ptc.document import HitaextDoc
            doc = HitaextDoc()
            for side, x in zip(T.SIDES, d["sides"]):
                doc.set_filename(side, x["file"])
                x["root"] = None
                x["elems"] = []
            return doc
        doc = s.must("new document", make)
        d.update(method=None, links=[], font=[])
    else:
        fs.put(name, T.doc_xml(d, plan["style"]))
        doc = s.must("load", load, given)
    check_mem(s, doc, d)
    on_disk = None if plan["new"] else T.expect(d)
    # a history of edits and saves
    for op in plan["ops"]:
        if op[0] == "save":
            s.must("save", lambda: doc.write(given))
            on_disk = T.expect(d)
            got = T.parse(fs.get(name))
            if canon(got) != canon(on_disk):
                violate("saved", first_diff(on_disk, got))
            doc = s.must("load", load, given)
        else:
            s.must("edit " + op[0], apply, doc, d, op)
        check_mem(s, doc, d)
    want = T.expect(d)
    targets = {}
    if plan["end"] == "save":
        s.end()
        s = Session(w, "save", plan["cwd"], plan["faults"])
        before = fs.listing()
        w.quota = plan["quota"]
        s.first = False
        import seams
        out = seams.attempt(s.p, lambda: doc.write(given), fresh=False)
        proc = s.p
        steps = marks(proc)
        targets[name] = [on_disk, want]
        if out.kind == "exc":
            proc.faults = []
            w.quota = None
            check_files(w, targets, out, proc, before)
            check_mem(s, doc, d)
            s.must("save again", lambda: doc.write(given))
            targets[name] = [want, want]
            out = seams.Outcome("ok")
        s.end()
    else:
        if plan["ops"] or plan["new"]:
            s.must("save", lambda: doc.write(given))
        s.end()
        # several documents are relocated
        docs = [(name, given, d)]
        for i, x in enumerate(plan["more"]):
            p = "%s/more%d.ptc" % (D[i % len(D)], i)
            fs.put(p, T.doc_xml(x, plan["style"]))
            docs.append((p, p, norm(x)))
        argv = []
        if plan["to"] is not None:
            argv += ["-d", plan["to"]]
        if plan["end"] == "dry":
            argv += ["-t"]
        for p, g, x in docs:
            old = T.expect(x)
            for side in x["sides"]:
                f = side["file"].replace("\\", "/")
                if f[1:2] == ":" and f[0].isupper():
                    f = f[2:]
                side["file"] = posixpath.join(plan["to"] or "",
                                              posixpath.basename(f))
            targets[p] = [old, old if plan["end"] == "dry" else T.expect(x)]
        before = fs.listing()
        w.quota = plan["quota"]
        out, proc = tool(w, "ptc_chdir.py", [g for p, g, x in docs] + argv,
                         "tool", plan["cwd"], plan["faults"])
        steps = marks(proc)
        if out.failed and not proc.fired and plan["quota"] is None:
            violate("failed:chdir", repr(out) + proc.stderr.getvalue())
    w.quota = None
    if plan["end"] == "dry":
        for p, data in sorted(fs.listing().items()):
            if before.get(p, 0) != data:
                violate("dry", "a dry run changed " + p)
    check_files(w, targets, out, proc, before, plan["end"] == "dry")
    s2 = Session(w, "load", "/")
    for t in sorted(targets):
        if fs.get(t) is None:
            continue
        got = s2.must("read back", lambda: T.snap(load(t)))
        if canon(got) not in [canon(x) for x in targets[t]]:
            violate("read-back", first_diff(targets[t][1], got))
    s2.end()
    return {"steps": {"p": steps},
            "nt": bool(plan["faults"] or plan["ops"] or
                       plan["end"] == "chdir")}


def load(path):
    from daeso.ptc.document import HitaextDoc
    return HitaextDoc(file=path)


def check_mem(s, doc, d):
    got = s.must("inspect", T.snap, doc)
    want = T.expect(d)
    if canon(got) != canon(want):
        violate("document", first_diff(want, got))


def check_files(w, targets, out, proc, before, talk=False):
    fs = w.fs
    after = fs.listing()
    for k in sorted(before):
        if k not in targets and after.get(k, 0) != before[k]:
            violate("other-file", "%s changed" % k)
    ok = out.kind in ("ok", "exit") and not out.failed and \
        (talk or not T.quiet(proc).strip())
    if ok:
        for k in sorted(after):
            if k not in before and k not in targets:
                violate("litter", "left behind %s" % k)
    for t in sorted(targets):
        old, new = targets[t]
        data = fs.get(t)
        if data is None:
            if old is not None:
                violate("lost", "%s is gone after %r" % (t, out))
            if ok:
                violate("silent", "%s was not written, yet %r" % (t, out))
            continue
        got = T.parse(data)
        if got is None:
            violate("damaged", "%s is damaged after %r: %s"
                    % (t, out, brief(data, 200)))
        isnew = canon(got) == canon(new)
        if not isnew and (old is None or canon(got) != canon(old)):
            violate("mixed", "%s after %r: %s"
                    % (t, out, first_diff(new, got)))
        if ok and not isnew:
            violate("silent", "%s is the old version, yet %r: %s"
                    % (t, out, first_diff(new, got)))
