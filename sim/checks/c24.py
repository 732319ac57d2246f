# -*- coding: utf-8 -*-
"""
C24 reported differences and phrases are exactly those of the corpora
"""
import copy
import posixpath
import re
from lib import *
import model as M
import ptcm as T
import c23

SHRINK = ("faults", "files", "model.pairs", "model.pairs.*.align",
          "files.*.align", "links", "links.*", "texts.*.3", "texts.*.3.*.3")
SIMPLER = (("style", [M.PLAINSTYLE]), ("model.meta", [None]),
           ("full", [None]), ("world.buf", [4096]), ("bad", [None]),
           ("comments", [None]), ("rels", [None]))

RELS = c23.RELS


def gen(rng, tier):
    which = rng.weighted([("pgc", 4), ("pgcapi", 2), ("ptc", 4),
                          ("phrases", 3)])
    p = {"world": {"seed": rng.below(1 << 30),
                   "buf": rng.choice([32, 512, 4096])},
         "which": which, "faults": [], "full": None,
         "cwd": rng.choice(["/data/pgc", "/work"]), "style": M.gen_style(rng),
         "bad": rng.weighted([(None, 12), ("missing", 1), ("damaged", 1),
                              ("short", 1)]), "at": rng.below(997)}
    if which == "ptc":
        p["texts"] = [T.gen_text(rng, pre, True, 3, rng.chance(0.6),
                                 rng.choice([1, 1, 0, 0.6]))
                      for pre in ("f", "t")]
        p["methods"] = [rng.choice([None, "n", "n", "id"]) for _ in (0, 1)]
        base = [[rng.below(1 << 16), rng.below(1 << 16)]
                for _ in range(rng.below(8))]
        copies = [list(x) for x in base]
        p["links"] = [rng.shuffle(rng.subset(c, rng.choice([1, 0.7])) +
                                  [[rng.below(1 << 16), rng.below(1 << 16)]
                                   for _ in range(rng.below(3))])
                      for c in (base, copies)]
        for x in p["links"][1]:
            if rng.chance(0.15):
                x.append(1)     # to an element with another tag
        p["same"] = rng.chance(0.6)     # aligned elements have the same tag
        p["tag"] = rng.choice([None, "s", "p", "head"])
        p["apart"] = rng.chance(0.3)    # each corpus has texts of its own
        return p
    rels = rng.choice([None, None, RELS, ["equals", u"gel\xedjk", "x y"]])
    o = {"nodeids": "num"} if which != "phrases" else {}
    while True:
        m = M.gen_model(rng, maxbanks=2, maxgraphs=3, minpairs=1,
                        maxpairs=rng.choice([2, 5]),
                        formats=["alpino"] if which != "phrases" else
                        ["graphml", "alpino"], empty=which != "phrases",
                        dirs=["/data/gb", "/data/pgc"], rels=rels, **o)
        if m["pairs"]:
            break
    p["model"] = m
    if rng.chance(0.2):
        for b in m["banks"]:
            for g in b["graphs"]:
                rng.choice(g["nodes"])["label"] = u"n\xfap"
    o = {"drop": rng.choice([0, 0.1, 0.4, 1]), "relabel":
         rng.choice([0, 0.3]), "swap": rng.choice([0, 0.5]),
         "new": rng.choice([0, 0.5])}
    n = rng.int(1, 3) if which == "phrases" else 2
    p["files"] = []
    for i in range(n):
        al = c23.vary(rng, m, o)
        for a in al:
            for x in a:
                if x[2] not in m["relations"]:
                    x[2] = rng.choice(m["relations"])
        com = [rng.choice([None, None, "", " ", M.gen_text(rng, True, 4)])
               for _ in m["pairs"]]
        p["files"].append({"name": rng.choice(["c%d.pgc", "x %d.xml"]) % i,
                           "align": al, "comments": com,
                           "only": rng.chance(0.4)})
    p["ident"], p["comments"] = rng.chance(0.4), rng.chance(0.4)
    p["words"] = which == "pgcapi" and rng.chance(0.4)
    p["rels"] = None
    if rng.chance(0.3):
        p["rels"] = rng.subset([r for r in m["relations"]
                                if isinstance(r, str)], 0.5)
    p["delim"] = rng.choice([None, None, "|", " || ", ""])
    p["verbose"] = rng.chance(0.5)
    p["names"] = rng.choice([None, ["EM", "Zz"]])
    return p


def faults(rng, plan, base, tier):
    out = []
    for _ in range(3 if tier == "quick" else 15):
        p = norm(plan)
        k = rng.weighted([("err", 5), ("short", 3), ("full", 3), ("gone", 2)])
        if k == "full" and plan["which"] != "pgcapi":
            p["full"] = rng.below(rng.choice([100, 3000]))
        elif k == "short":
            p["faults"] = shorts(rng, 1)
        else:
            p["faults"] = [place(rng, base["steps"]["p"],
                                 ("err", "err", "intr"))]
            if rng.chance(0.3):
                p["faults"] += shorts(rng, 1)
        out.append(p)
    return out


def run(plan):
    w = mkworld(plan)
    for d in ("/data/pgc", "/work"):
        w.fs.mkdirs(d)
    if plan["which"] == "ptc":
        return run_ptc(w, plan)
    m = plan["model"]
    if not m["pairs"] or not plan["files"]:
        raise Discard()
    M.put_banks(w.fs, m)
    paths, subs = [], []
    for i, f in enumerate(plan["files"]):
        if len(f["align"]) < len(m["pairs"]):
            raise Discard()
        sub = copy.deepcopy(m)
        for p, al, c in zip(sub["pairs"], f["align"], f["comments"]):
            p["align"] = [list(x) for x in al]
            for side in (0, 1):
                ids = [n["id"] for n in M.graph_of(m, p, side)["nodes"]]
                if [x for x in al if x[side] not in ids]:
                    raise Discard()
            p["meta"] = None
            if c is not None:
                p["meta"] = ["graph_meta_data", [], "",
                             [["comment", [], c, [], ""]], ""]
        if f["only"]:
            # declares no more relations than it uses
            sub["relations"] = sorted(set(x[2] for p in sub["pairs"]
                                          for x in p["align"]))
        path = "/data/pgc/" + f["name"]
        if path in paths or path in [b["path"] for b in m["banks"]]:
            raise Discard()
        if plan["bad"] == "short" and i == 0:
            del sub["pairs"][-1]
        data = M.corpus_xml(sub, path, plan["style"])
        if plan["bad"] == "damaged" and i == plan["at"] % len(plan["files"]):
            data = data[:plan["at"] * 31 % max(1, len(data.rstrip()) - 1)]
        if plan["bad"] != "missing" or i != plan["at"] % len(plan["files"]):
            w.fs.put(path, data)
        paths.append(path)
        subs.append(sub)
    if plan["which"] == "phrases":
        return run_phrases(w, plan, paths, subs)
    return run_pgc(w, plan, paths, subs)


def verdict(w, plan, what, before, out, proc, fail, hit):
    "-> is there complete output to look at"
    c23.read_only(w, before, what)
    if out.kind == "hang":
        violate("hang", what)
    if isinstance(out.exc, Violation):
        raise out.exc
    quiet = not out.failed and out.kind != "crash" and \
        not T.quiet(proc).strip()
    if fail and quiet:
        violate("silent", what + " in spite of bad input")
    if not fail and not hit and not quiet:
        violate("failed", "%s %s\n%s" % (what, proc.stderr.getvalue(),
                                         out.tb or ""))
    return quiet and not fail


# --------------------------------------------------------------------------
# pgc_diff
# --------------------------------------------------------------------------

def run_pgc(w, plan, paths, subs):
    if len(paths) != 2:
        raise Discard()
    names = plan["names"] or ["First annotator", "Second annotator"]
    before = w.fs.listing()
    if plan["which"] == "pgcapi":
        s = Session(w, "p", plan["cwd"], plan["faults"])

        def go():
            import StringIO
            from daeso.pgc.corpus import ParallelGraphCorpus
            from daeso.pgc.diff import pgc_diff
            o = StringIO.StringIO()
            c = [ParallelGraphCorpus(inf=x) for x in paths]
            shown = [canon(M.snap(x)) for x in c]
            pgc_diff(c[0], c[1], paths[0], paths[1], names[0], names[1],
                     words_only=plan["words"], show_comments=plan["comments"],
                     show_ident=plan["ident"], relations=plan["rels"], out=o)
            if [canon(M.snap(x)) for x in c] != shown:
                violate("changed", "pgc_diff changed a corpus")
            return o.getvalue()
        out = s.do(go)
        s.end()
        proc = s.p
    else:
        argv = list(paths)
        if plan["names"]:
            argv += ["-1", names[0], "-2", names[1]]
        argv += ["-c"] * plan["comments"] + ["-i"] * plan["ident"]
        if plan["rels"] is not None:
            argv += ["-r"] + plan["rels"]
        out, proc = tool(w, "pgc_diff.py", argv, "p", plan["cwd"],
                         plan["faults"], plan["full"])
    what = "pgc_diff of %s: %r" % (paths, out)
    fail = plan["bad"] in ("missing", "damaged", "short")
    hit = bool(proc.fired) or plan["full"] is not None
    if verdict(w, plan, what, before, out, proc, fail, hit):
        text = out.value if plan["which"] == "pgcapi" else \
            proc.stdout.getvalue()
        look(w, plan, what, text, paths, names, subs)
    return {"nt": True, "steps": {"p": marks(proc)}}


def u8(x):
    return x.encode("utf-8") if isinstance(x, unicode) else str(x)


def end(g, i):
    "how one end of an alignment is printed"
    for pos, n in enumerate(g["nodes"]):
        if n["id"] == i:
            return '(%s) %s [%d:%d]: "%s"' % (
                i, u8(n["label"]), pos, pos + 1,
                " ".join(u8(t) for t in n["tokens"]))


def look(w, plan, what, text, paths, names, subs):
    "compare the report with the differences"
    got, heads = report(text)
    if heads[:1] != ["%s corpus: %s\n%s corpus: %s"
                     % (names[0], paths[0], names[1], paths[1])]:
        violate("header", "%s: %r" % (what, heads[:1]))
    pairs = [(x, y) for x, y in zip(subs[0]["pairs"], subs[1]["pairs"])]
    if heads[1:] != ["Graph pair %d" % (i + 1) for i in range(len(pairs))]:
        violate("header", "%s: %r" % (what, heads[1:]))
    rels = plan["rels"] or None
    count = 0
    exp = []
    may = []
    for k, (x, y) in enumerate(pairs):
        gs = [M.graph_of(plan["model"], x, i) for i in (0, 1)]
        a1, a2 = [dict(((s, t), r) for s, t, r in p["align"]) for p in (x, y)]
        if plan["words"]:
            t = [c23.terminals(g) for g in gs]
            a1, a2 = [dict((n, r) for n, r in a.items()
                           if n[0] in t[0] and n[1] in t[1]) for a in (a1, a2)]
        for n in set(a1) | set(a2):
            r1, r2 = a1.get(n), a2.get(n)
            if r1 == r2:
                kind = "Identical"
                if not plan["ident"]:
                    continue
            elif r1 and r2:
                kind = "Relation different"
            else:
                kind = names[0 if r1 else 1] + " only"
            row = [k, kind, end(gs[0], n[0]),
                   [(r1 or u"None").upper(), (r2 or u"None").upper()],
                   end(gs[1], n[1])]
            if rels is None or (r1 or r2) in rels:
                exp.append(row)
            elif r1 and r2 in rels:
                may.append(row)
        for g, i in zip(gs, (0, 1)):
            toks = " ".join(u8(t) for t in g["tokens"])
            if got[k]["texts"][i:i + 1] != [toks]:
                violate("sentence", "%s: %r, should be %r"
                        % (what, got[k]["texts"], toks))
        com = [(names[i], u8(p["meta"][3][0][2]).strip())
               for i, p in enumerate((x, y)) if p["meta"]]
        com = [["Comments by " + a, c] for a, c in com if c]
        if got[k]["comments"] != (com if plan["comments"] else []):
            violate("comments", "%s: %r, should be %r"
                    % (what, got[k]["comments"], com))
    rows = []
    for k, g in enumerate(got):
        for kind, n, s, r, t in g["rows"]:
            count += 1
            if n != count:
                violate("number", "%s: #%d comes after #%d"
                        % (what, n, count - 1))
            rows.append([k, kind, s, [x.decode("utf-8") for x in r], t])
        for kind in sorted(set(r[0] for r in g["rows"])):
            # "(12) np [3:4]: ..." in the order of the source nodes
            ids = [int(r[2][1:].split(")")[0]) for r in g["rows"]
                   if r[0] == kind]
            if ids != sorted(ids):
                violate("order", "%s: pair %d: %s: source nodes %s"
                        % (what, k + 1, kind, ids))
    got = [canon(x) for x in rows]
    exp = [canon(x) for x in exp]
    may = [canon(x) for x in may]
    for x in sorted(set(got) | set(exp)):
        if got.count(x) != exp.count(x) and not (x in may and
                                                 got.count(x) == 1):
            violate("difference", "%s: %s reported %d times, should be %d"
                    % (what, x, got.count(x), exp.count(x)))
    w.probe("compared", len(exp))


def report(text):
    "-> per pair texts, comments and rows; all headers"
    lines = text.split("\n")
    heads, pairs = [], []
    section = None
    i = 0
    while i < len(lines):
        line = lines[i]
        if len(line) >= 80 and set(line) in (set("="), set("#"), set("-")):
            j = lines.index(line, i + 1)
            title = "\n".join(lines[i + 1:j])
            i = j + 1
            if line[0] == "-":
                section = title
                continue
            heads.append(title)
            if line[0] == "=":
                pairs.append({"texts": [], "comments": [], "rows": []})
                section = None
            continue
        i += 1
        m = re.match(r"^#(\d+):$", line)
        if m and section:
            r = re.match(r"^<<< (.*) / (.*) >>>$", lines[i + 1])
            if not r:
                violate("format", repr(lines[i - 1:i + 4]))
            pairs[-1]["rows"].append([section, int(m.group(1)), lines[i],
                                      [r.group(1), r.group(2)], lines[i + 2]])
            i += 3
        elif line.strip() or (pairs and section is None and
                              len(pairs[-1]["texts"]) < 2 and
                              line.endswith(" ")):
            if section is None:
                # print adds a space
                pairs[-1]["texts"].append(line[:-1])
            elif section.startswith("Comments"):
                pairs[-1]["comments"].append([section, line.strip()])
            else:
                violate("format", repr(line))
    return pairs, heads


# --------------------------------------------------------------------------
# pgc_extract_phrases
# --------------------------------------------------------------------------

def run_phrases(w, plan, paths, subs):
    argv = [posixpath.basename(x) if plan["cwd"] == "/data/pgc" else x
            for x in paths]
    delim = "\t"
    if plan["delim"] is not None:
        delim = plan["delim"]
        argv = ["-d", delim] + argv
    if plan["verbose"]:
        argv = ["-V"] + argv
    before = w.fs.listing()
    out, proc = tool(w, "pgc_extract_phrases.py", argv, "p", plan["cwd"],
                     plan["faults"], plan["full"])
    what = "pgc_extract_phrases %r: %r" % (argv, out)
    fail = plan["bad"] in ("missing", "damaged")
    hit = bool(proc.fired) or plan["full"] is not None
    if verdict(w, plan, what, before, out, proc, fail, hit):
        lines = proc.stdout.getvalue().split("\n")
        if lines.pop():
            violate("format", what)
        for path, sub in zip(paths, subs):
            for p in sub["pairs"]:
                gs = [M.graph_of(plan["model"], p, i) for i in (0, 1)]
                want = []
                for s, t, r in p["align"]:
                    x = [phrase(gs[0], s), u8(r), phrase(gs[1], t)]
                    if plan["verbose"]:
                        b = [plan["model"]["banks"][i]["path"]
                             for i in p["b"]]
                        x = b + p["g"] + [s, t] + x
                    want.append(delim.join(u8(y) for y in x))
                n = len(want)
                got, lines = lines[:n], lines[n:]
                if plan["verbose"] and delim:
                    got = [delim.join(
                        [real(w.fs, plan["cwd"], y) if i < 2 else y
                         for i, y in enumerate(x.split(delim))]) for x in got]
                elif plan["verbose"]:
                    continue
                if sorted(got) != sorted(want):
                    violate("phrases", "%s: %r, should be %r"
                            % (what, sorted(got), sorted(want)))
                w.probe("phrases", n)
        if lines:
            violate("phrases", "%s: too many: %r" % (what, lines))
    return {"nt": True, "steps": {"p": marks(proc)}}


def phrase(g, i):
    for n in g["nodes"]:
        if n["id"] == i:
            return " ".join(u8(t) for t in n["tokens"])


def real(fs, cwd, p):
    "paths of graphbanks may be shown in any way that leads to the file"
    x = fs.lookup(p, True, cwd)
    for q in fs.files():
        if x is not None and fs.lookup(q) is x:
            return q
    return p


# --------------------------------------------------------------------------
# ptc_diff
# --------------------------------------------------------------------------

def run_ptc(w, plan):
    fs = w.fs
    texts = plan["texts"]
    els = [T.elems(t) for t in texts]
    docs, found = [], []
    fail = plan["bad"] in ("missing", "damaged")
    tag = plan["tag"] or "s"
    for i in (0, 1):
        files = []
        for side, t in enumerate(texts):
            p = "/data/pgc/%s%s.xml" % ("ft"[side],
                                        i if plan["apart"] else "")
            fs.put(p, M.Ser(plan["style"]).doc(t))
            files.append(p)
        links = []
        for x in plan["links"][i]:
            a = els[0][x[0] % len(els[0])]
            b = els[1][x[1] % len(els[1])]
            if plan["same"]:
                same = [e for e in els[1] if e[0] == a[0]]
                if same:
                    b = same[x[1] % len(same)]
            if len(x) > 2:
                # of the same number, and perhaps with the same id
                same = [e for e in els[1] if e[0] != b[0] and e[1] == b[1]]
                if same:
                    b = same[x[1] % len(same)]
            if plan["methods"][i] == "id" and None in (a[2], b[2]):
                continue
            if (a[:2], b[:2]) not in links:
                links.append((a[:2], b[:2]))
        ids = dict((side, dict((e[:2], e[2]) for e in els[side]))
                   for side in (0, 1))
        for side in (0, 1):
            seen = [(e[0], e[2]) for e in els[side] if e[2] is not None]
            if len(seen) != len(set(seen)):
                raise Discard()
        d = {"sides": [{"file": f, "root": None, "elems": []} for f in files],
             "method": plan["methods"][i], "font": [], "links": []}
        for a, b in links:
            if d["method"] == "id":
                d["links"].append([["from_tag", a[0]],
                                   ["from_id", ids[0][a]],
                                   ["to_tag", b[0]], ["to_id", ids[1][b]]])
            else:
                d["links"].append([["from_tag", a[0]], ["from_n", str(a[1])],
                                   ["to_tag", b[0]], ["to_n", str(b[1])]])
        data = T.doc_xml(d, plan["style"])
        path = "/data/pgc/d%d.hitaext" % i
        if plan["bad"] == "damaged" and i == plan["at"] % 2:
            data = data[:plan["at"] * 31 % max(1, len(data.rstrip()) - 1)]
        if plan["bad"] != "missing" or i != plan["at"] % 2:
            fs.put(path, data)
        docs.append(path)
        found.append(set(l for l in links if l[0][0] == tag))
    argv = list(docs)
    if plan["tag"]:
        argv += ["-t", plan["tag"]]
    before = fs.listing()
    out, proc = tool(w, "ptc_diff.py", argv, "p", plan["cwd"],
                     plan["faults"], plan["full"])
    what = "ptc_diff %r: %r" % (argv, out)
    hit = bool(proc.fired) or plan["full"] is not None
    if not fail and not [e for e in els[0] if e[0] == tag]:
        # a tag that does not occur may be refused
        hit = True
    if not verdict(w, plan, what, before, out, proc, fail, hit):
        return {"nt": True, "steps": {"p": marks(proc)}}
    exp = []
    for i, kind in ((0, "true"), (1, "predicted")):
        for a, b in found[i] - found[1 - i]:
            x = [e for e in els[0] if e[:2] == a][0]
            y = [e for e in els[1] if e[:2] == b][0]
            exp.append("%s only (%s, %s)|%s|%s" % (
                kind, u8(x[2]), u8(y[2]), glue(x[3]), glue(y[3])))
    lines = proc.stdout.getvalue().split("\n")
    got = []
    while len(lines) > 1:
        m = re.match(r"^#(\d+) (.*\))", lines[0])
        if not m or int(m.group(1)) != len(got) + 1 or lines[3]:
            violate("format", "%s: %r" % (what, lines[:4]))
        got.append("|".join([m.group(2), lines[1], lines[2]]))
        del lines[:4]
    if lines[0]:
        violate("format", "%s: %r" % (what, lines))
    for x in sorted(set(got) | set(exp)):
        if got.count(x) != exp.count(x):
            violate("difference", "%s: %s reported %d times, should be %d"
                    % (what, x, got.count(x), exp.count(x)))
    w.probe("compared", len(exp))
    return {"nt": True, "steps": {"p": marks(proc)}}


def glue(e):
    s = u8(e[2]).strip()
    for k in e[3]:
        s += glue(k) + u8(k[4]).strip()
    return s
