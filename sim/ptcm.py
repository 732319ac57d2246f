# -*- coding: utf-8 -*-
"""
Reference model of parallel text documents (Hitaext) and marked-up texts.

text: [tag, attributes, text, children, tail] as in model.Ser
doc:  {"sides": [{"file", "root", "elems": [[tag, [[k, v]...]]...]}...],
       "method": None | "n" | "id",
       "links": [[[attribute, value]...]...], "font": [[k, v]...]}
"""
import model as M

TAGS = ["p", "s", "w", "head"]
SIDES = ("from", "to")
FILES = ["source.xml", "a b.xml", "t&c.txt", "news-01.tok.xml", "X", "x.y"]


# texts ---------------------------------------------------------------------

def gen_text(rng, pre="", uni=True, maxp=3, leafs=True, ids=1.0, maxs=3):
    "a marked-up text; unique ids per tag"
    count = {}

    def attrs(tag):
        count[tag] = count.get(tag, 0) + 1
        a = []
        if rng.chance(ids):
            a.append(["id", "%s%s%d" % (pre, tag if style else "", count[tag])])
        if rng.chance(0.2):
            a.append(["lang", "nl"])
        return a
    style = rng.below(2)

    def sent():
        tag = rng.choice(["s", "s", "s", "head"])
        kids = []
        a = attrs(tag)
        if not leafs and rng.chance(0.4):
            kids = [["w", attrs("w"), M.gen_text(rng, uni, 1), [], ""]
                    for _ in range(rng.int(1, 3))]
            return [tag, a, "", kids, ""]
        return [tag, a, M.gen_text(rng, uni, 6) if rng.chance(0.9) else "",
                kids, ""]
    ps = []
    for _ in range(rng.int(1, maxp)):
        a = attrs("p")
        kids = [sent() for _ in range(rng.int(0 if not leafs else 1, maxs))]
        if rng.chance(0.15):
            kids = [["p", attrs("p"), "", kids, ""]]
        ps.append(["p", a, M.gen_text(rng, uni, 2) if rng.chance(0.1) else "",
                   kids, ""])
    return ["text", attrs("text") if rng.chance(0.5) else [], "", ps, ""]


def walk(t):
    yield t
    for k in t[3]:
        for x in walk(k):
            yield x


def elems(t):
    "[(tag, n, id, element)] in document order"
    count = {}
    out = []
    for e in walk(t):
        count[e[0]] = count.get(e[0], 0) + 1
        out.append((e[0], count[e[0]], dict(map(tuple, e[1])).get("id"), e))
    return out


def tokens(e):
    "words of an element, text of different elements glued together"
    def glue(e):
        s = e[2].strip()
        for k in e[3]:
            s += glue(k) + k[4].strip()
        return s
    return glue(e).lower().split()


# documents -----------------------------------------------------------------

def gen_attrs(rng):
    a = [["ignore", "False"], ["skip", "False"], ["newline", "False"],
         ["blankline", "False"]]
    for x in a:
        if rng.chance(0.2):
            x[1] = "True"
    if rng.chance(0.4):
        a.append(["uniq", rng.choice(["True", "False"])])
    return a


def gen_side(rng, file=None):
    return {"file": file or gen_file(rng),
            "root": rng.choice([None, "text", "p"]),
            "elems": [[t, gen_attrs(rng)]
                      for t in rng.subset(["text"] + TAGS, 0.5)]}


def gen_file(rng):
    d = rng.choice(["", "texts/", "/data/texts/", "../x/", "/srv/a b/"])
    return d + rng.choice(FILES)


def gen_link(rng, method, big=12):
    a, b = rng.choice(TAGS), rng.choice(TAGS)
    if method == "id":
        return [["from_tag", a], ["from_id", M.gen_text(rng, True, 1)],
                ["to_tag", b], ["to_id", "%d.%d" % (rng.below(9),
                                                    rng.below(9))]]
    return [["from_tag", a], ["from_n", str(rng.int(1, big))],
            ["to_tag", b], ["to_n", str(rng.int(1, big))]]


def gen_doc(rng):
    method = rng.choice([None, "n", "id"])
    return {"sides": [gen_side(rng), gen_side(rng)], "method": method,
            "pad": rng.chance(0.3),
            "links": [gen_link(rng, method) for _ in range(rng.below(5))],
            "font": [["family", "Sans"], ["size", "12"]]
            if rng.chance(0.5) else []}


def doc_elem(d):
    kids = []
    for side, s in zip(SIDES, d["sides"]):
        el = [[t, a, "", []] for t, a in s["elems"]]
        root = [["pseudo_root", s["root"]]] if s["root"] is not None else []
        kids.append([side, [], "",
                     [["filename", [], "\n  %s\n " % s["file"]
                        if d.get("pad") else s["file"], []],
                      ["render", [], "",
                       [["font", d["font"], "", []],
                        ["elements", root, "", el]]]]])
    m = [["method", d["method"]]] if d["method"] is not None else []
    kids.append(["alignment", m, "",
                 [["link", a, "", []] for a in d["links"]]])
    return ["hitaext", [], "", kids]


def doc_xml(d, st=M.PLAINSTYLE):
    return M.Ser(st).doc(doc_elem(d))


def expect(d):
    return {"sides": [{"file": s["file"].strip(), "root": s["root"],
                       "elems": [[t, sorted(map(list, a))]
                                 for t, a in s["elems"]]}
                      for s in d["sides"]],
            "method": d["method"],
            "links": [sorted(map(list, a)) for a in d["links"]],
            "font": sorted(map(list, d["font"]))}


def _attrs(e):
    return sorted([list(x) for x in e.attrib.items()])


def snap(doc):
    "what the document shows through its interface"
    out = {"sides": [], "method": doc.get_alignment_method(),
           "links": [_attrs(e) for e in doc.get_alignments()],
           "font": _attrs(doc.getroot().find("from/render/font"))}
    for side in SIDES:
        tags = doc.get_elem_tags(side)
        table = doc.get_elem_dict(side, None)
        if sorted(table) != sorted(set(tags)):
            raise AssertionError("get_elem_dict")
        out["sides"].append({
            "file": doc.get_filename(side),
            "root": doc.get_pseudo_root(side),
            "elems": [[t, _attrs(doc.get_elem(side, t))] for t in tags]})
    return out


def parse(data):
    "an independent reader; None if this is no such document"
    import xml.etree.ElementTree as et
    try:
        root = et.fromstring(data)
        out = {"sides": [], "method": root.find("alignment").get("method"),
               "links": [_attrs(e) for e in root.find("alignment")],
               "font": _attrs(root.find("from/render/font"))}
        for side in SIDES:
            el = root.find(side + "/render/elements")
            out["sides"].append({
                "file": root.find(side + "/filename").text.strip(),
                "root": el.get("pseudo_root"),
                "elems": [[e.tag, _attrs(e)] for e in el]})
        if [e.tag for e in root] != ["from", "to", "alignment"]:
            return None
        return out
    except Exception:
        return None


def quiet(p):
    "error output apart from the warnings every use of ElementTree gives"
    return "".join(l for l in p.stderr.getvalue().splitlines(True)
                   if "FutureWarning" not in l)
