# -*- coding: utf-8 -*-
"""
C16 renumbering alignments keeps linking the same text elements
"""
import posixpath
from lib import *
import model as M
import ptcm as T

SHRINK = ("faults", "docs", "docs.*.links", "docs.*.doc.sides.0.elems",
          "docs.*.doc.sides.1.elems", "docs.*.texts.0.3", "docs.*.texts.1.3",
          "damage", "ops")
SIMPLER = (("docs.*.style", [M.PLAINSTYLE]), ("docs.*.doc.font", [[]]),
           ("quota", [None]), ("world.buf", [4096]))

D = ["/data/ptc", "/data", "/work"]


def gen(rng, tier):
    api = rng.choice(["tool", "tool", "tool", "api"])
    docs = []
    for i in range(rng.int(1, 3) if api == "tool" else 1):
        texts = [T.gen_text(rng, rng.choice(["", "a", "b."]), leafs=False,
                            maxp=rng.choice([2, 6]), maxs=rng.choice([2, 5]))
                 for _ in range(2)]
        if rng.chance(0.25):
            texts[rng.below(2)] = T.gen_text(rng, "", leafs=False, ids=0.8)
        doc = T.gen_doc(rng)
        doc["method"] = rng.choice([None, "n", "n", "id"])
        links = []
        for _ in range(rng.int(0, 6)):
            links.append([rng.below(64), rng.below(64)])
        docs.append({"doc": doc, "texts": texts, "links": links,
                     "style": M.gen_style(rng), "tstyle": M.gen_style(rng),
                     "dir": rng.choice(D),
                     "tdir": [rng.choice(["/data/texts", "/srv/t", "."])
                              for _ in range(2)],
                     "how": [rng.choice(["abs", "abs", "rel", "moved"])
                             for _ in range(2)],
                     "name": ["t%d-from.xml" % i,
                              rng.choice(["t%d-to.xml" % i, "a b%d.xml" % i])]})
    damage = []
    if rng.chance(0.3):
        damage = [[rng.choice(["missing", "trunc", "big", "zero", "neg",
                               "notag", "noref", "badid", "junk", "noint"]),
                   rng.below(8), rng.below(2), rng.below(1 << 16)]]
    return {"world": {"seed": rng.below(1 << 30),
                      "buf": rng.choice([16, 64, 256, 4096])},
            "api": api, "docs": docs, "cwd": rng.choice(D),
            "rel": rng.chance(0.4), "damage": damage,
            "ops": [rng.choice(["id", "n", "save"])
                    for _ in range(rng.int(1, 4))],
            "faults": [], "quota": None}


def faults(rng, plan, base, tier):
    st = base["steps"]["p"]
    out = []
    for _ in range(5 if tier == "quick" else 20):
        p = norm(plan)
        k = rng.weighted([("crash", 4), ("err", 6), ("full", 2), ("short", 1),
                          ("intr", 1)])
        if k == "full":
            p["quota"] = rng.below(rng.choice([30, 300, 1500]))
        elif k == "short":
            p["faults"] = shorts(rng, 1)
        else:
            p["faults"] = [place(rng, st, (k,))]
        out.append(p)
    return out


class Bad(object):
    "what must be reported"


def links_of(x, method):
    """
    the links of a document in this method as [[attribute, value]...], and
    the (from, to) elements that they link; ids None if there is none
    """
    fe, te = [T.elems(t) for t in x["texts"]]
    out = []
    for a, b in x["links"]:
        f, t = fe[a % len(fe)], te[b % len(te)]
        out.append((f, t))
    return out


def write_link(f, t, method):
    if method == "id":
        if f[2] is None or t[2] is None:
            return None
        return [["from_tag", f[0]], ["from_id", f[2]],
                ["to_tag", t[0]], ["to_id", t[2]]]
    return [["from_tag", f[0]], ["from_n", str(f[1])],
            ["to_tag", t[0]], ["to_n", str(t[1])]]


def run(plan):
    w = mkworld(plan)
    fs = w.fs
    for x in D + ["/data/texts", "/srv/t"]:
        fs.mkdirs(x)
    cwd = plan["cwd"]
    search = plan["api"] == "api"
    docs = []
    for i, x in enumerate(plan["docs"]):
        path = "%s/doc%d.ptc" % (x["dir"], i)
        d = norm(x["doc"])
        bad = False
        tpaths = []
        for k in (0, 1):
            td = x["tdir"][k]
            if td == ".":
                td = x["dir"]
            how = x["how"][k]
            if how == "moved" and not search:
                how = "abs"
            tp = "%s/%s" % (td, x["name"][k])
            if how == "abs":
                d["sides"][k]["file"] = tp
            elif how == "rel":
                # relative to the working directory or, when searched for,
                # to the document
                base = x["dir"] if search and x["dir"] != cwd else cwd
                rp = posixpath.relpath(tp, base)
                d["sides"][k]["file"] = rp
                if search and base != cwd and \
                        posixpath.normpath(posixpath.join(cwd, rp)) != tp:
                    # nothing of that name may be found elsewhere
                    pass
            else:
                tp = "%s/%s" % (x["dir"], x["name"][k])
                d["sides"][k]["file"] = "/nowhere/any more/" + x["name"][k]
            fs.put(tp, M.Ser(x["tstyle"]).doc(x["texts"][k]))
            tpaths.append(tp)
        method = d["method"]
        linked = links_of(x, method)
        d["links"] = [write_link(f, t, method) for f, t in linked]
        if None in d["links"]:
            # such a document cannot be
            linked = [l for l, a in zip(linked, d["links"]) if a]
            d["links"] = [a for a in d["links"] if a]
        docs.append({"path": path, "d": d, "x": x, "linked": linked,
                     "bad": False, "t": tpaths})
    for k, n, side, a in plan["damage"]:
        e = docs[n % len(docs)]
        damage(fs, e, k, side, a)
    for e in docs:
        fs.put(e["path"], T.doc_xml(e["d"], e["x"]["style"]))
        e["old"] = T.expect(e["d"])
        e["unread"] = e["bad"]
        e["bad"] = e["bad"] or any(f[2] is None or t[2] is None
                                   for f, t in e["linked"])
    before = fs.listing()
    if plan["api"] == "api":
        return run_api(plan, w, docs[0], before)
    for e in docs:
        e["new"] = convert(e, "id")
    w.quota = plan["quota"]
    out, proc = tool(w, "ptc_n_to_id.py",
                     [posixpath.relpath(e["path"], cwd) if plan["rel"]
                      else e["path"] for e in docs], "tool", cwd,
                     plan["faults"])
    steps = marks(proc)
    w.quota = None
    nbad = [e["bad"] for e in docs].count(True)
    good = out.kind in ("ok", "exit") and not out.failed and \
        not T.quiet(proc).strip()
    hit = [f for f in proc.fired] or plan["quota"] is not None
    if nbad and good:
        violate("silent", "an alignment or text that is not there was not "
                "reported: %r" % (plan["damage"],))
    if not nbad and not hit and not good:
        violate("failed", "%r\n%s" % (out, proc.stderr.getvalue()))
    verify(w, docs, before, out, good)
    return {"steps": {"p": steps}, "nt": True}


def damage(fs, e, k, side, a):
    links = e["d"]["links"]
    sd = T.SIDES[side]
    if k == "missing":
        fs.unlink(e["t"][side])
        e["bad"] = True
        return
    if k in ("trunc", "junk"):
        data = fs.get(e["t"][side])
        n = len(data.rstrip())
        fs.put(e["t"][side], data[:a % (n - 1)] if k == "trunc" else
               "<text>&nosuch;</text>")
        e["bad"] = True
        return
    if not links:
        return
    i = a % len(links)
    l = [list(y) for y in links[i]]
    elems = T.elems(e["x"]["texts"][side])
    for y in l:
        tag = dict(map(tuple, l))[sd + "_tag"]
        if y[0] == sd + "_n":
            if k == "big":
                y[1] = str(1 + len([z for z in elems if z[0] == tag]))
            elif k == "zero":
                y[1] = "0"
            elif k == "neg":
                y[1] = "-1"
            elif k == "noint":
                y[1] = "x"
            elif k == "noref":
                y[0] = "other"
            elif k == "notag":
                continue
            else:
                return
        elif y[0] == sd + "_id":
            if k in ("big", "badid", "zero", "neg", "noint"):
                y[1] = "no-such-id"
            elif k == "noref":
                y[0] = "other"
            elif k != "notag":
                return
        elif y[0] == sd + "_tag" and k == "notag":
            y[1] = "bogus"
    if l == [list(y) for y in links[i]]:
        return
    links[i] = l
    e["bad"] = True


def convert(e, method, linked=None):
    "the document after conversion"
    new = T.expect(e["d"])
    new["method"] = method
    if e["bad"]:
        return None
    order = T.elems(e["x"]["texts"][0])
    out = []
    for f in order:
        for g, t in e["linked"]:
            if g[:2] == f[:2]:
                out.append(sorted(write_link(g, t, method)))
    new["links"] = out
    return new


def verify(w, docs, before, out, good):
    fs = w.fs
    after = fs.listing()
    paths = [e["path"] for e in docs]
    for k in sorted(before):
        if k not in paths and after.get(k, 0) != before[k]:
            violate("other-file", "%s changed" % k)
    for k in sorted(after):
        if good and k not in before:
            violate("litter", "left behind %s" % k)
    for e in docs:
        data = fs.get(e["path"])
        if data is None:
            violate("lost", "%s is gone after %r" % (e["path"], out))
        got = T.parse(data)
        if got is None:
            violate("damaged", "%s is damaged after %r: %s"
                    % (e["path"], out, brief(data, 200)))
        isold = canon(got) == canon(e["old"])
        isnew = e["new"] is not None and canon(got) == canon(e["new"])
        if e["bad"] and not isold:
            violate("written", "%s was written although a text or alignment "
                    "is bad: %s" % (e["path"], first_diff(e["old"], got)))
        if not isold and not isnew:
            violate("links", "%s after %r: %s" % (e["path"], out, first_diff(
                e["new"], got)))
        if good and not isnew:
            violate("silent", "%s not converted, yet %r" % (e["path"], out))


def run_api(plan, w, e, before):
    """
    one document, converted there and back by its methods; texts that were
    moved are searched for
    """
    fs = w.fs
    name = posixpath.relpath(e["path"], plan["cwd"]) if plan["rel"] \
        else e["path"]
    s = Session(w, "p", plan["cwd"], plan["faults"])
    w.quota = plan["quota"]
    box = {}

    def load():
        from daeso.ptc.document import HitaextDoc
        doc = HitaextDoc(file=name)
        trees = doc.get_doc_trees(search=True)
        doc.inject_alignments(trees.source, trees.target)
        return doc, trees
    hit = lambda: s.p.fired or plan["quota"] is not None
    out = s.do(load)
    if out.kind != "ok":
        if not hit() and not e["unread"]:
            violate("failed:load", "%r\n%s" % (out, out.tb or ""))
        w.quota = None
        e["new"] = None
        same(w, e, [e["old"]], before)
        return {"steps": {"p": marks(s.p)}, "nt": True}
    if e["unread"]:
        violate("silent", "a bad text or alignment was not reported: %r"
                % (plan["damage"],))
    doc, trees = out.value
    disk = e["old"]
    allowed = [disk]
    for op in plan["ops"]:
        if op == "save":
            new = got_mem(s, doc)
            out = s.do(lambda: doc.write(name))
            allowed = [disk, new] if out.kind != "ok" else [new]
            if None in [v for l in new["links"] for k, v in l]:
                # an element without an id is not a possible link
                if out.kind == "ok":
                    violate("silent", "saved a link to an element without id")
                allowed = [disk]
            elif out.kind == "exc" and not hit():
                violate("failed:save", "%r\n%s" % (out, out.tb))
            if out.kind == "crash":
                break
            if out.kind == "ok":
                disk = new
        else:
            def conv():
                doc.set_alignment_method(op)
                doc.extract_alignments(trees.source, trees.target)
            s.must("convert", conv)
            if not e["bad"]:
                want = convert(e, op)
                got = got_mem(s, doc)
                if canon(got) != canon(want):
                    violate("links", first_diff(want, got))
        same(w, e, allowed, before)
    w.quota = None
    same(w, e, allowed, before)
    st = marks(s.p)
    s.end()
    return {"steps": {"p": st}, "nt": True}


def got_mem(s, doc):
    return s.must("inspect", T.snap, doc)


def same(w, e, allowed, before):
    after = w.fs.listing()
    for k in sorted(before):
        if k != e["path"] and after.get(k, 0) != before[k]:
            violate("other-file", "%s changed" % k)
    data = w.fs.get(e["path"])
    got = data and T.parse(data)
    if not got:
        violate("damaged", "%s: %s" % (e["path"], brief(data or "gone", 200)))
    if canon(got) not in [canon(a) for a in allowed]:
        violate("content", first_diff(allowed[-1], got))
