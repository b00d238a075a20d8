"""C15-C19, C22, C23: what cleaning removes, keeps and repairs."""
import itertools
import random

from base import *  # noqa
import base as B
from core import num as core_num, soft
import fmt38 as F
import ref_clean as R

ROOT = B.ROOTBONE


def num(n, ne=(0, 1), types=NUMS, truth=None):
    """an unknown number that is nowhere the default (elision of defaults is decided by C01 and C02)"""
    return core_num(n, ne, types, truth)


def img(n):
    return name("im_" + n, "names", ne=("root", "None", "default"), nochars="[_ /")


def att(kind, nm, **kw):
    """an attachment of a kind, with unknown contents"""
    lst = [num(nm + "v0"), num(nm + "v1")]
    o = {"region": {"x": num(nm + "x", ne=(0,)), "width": num(nm + "w")},
         "regionpath": {"path": img(nm + "path"), "y": num(nm + "y", ne=(0,))},
         "regionname": {"name": img(nm + "nm"), "rotation": num(nm + "r", ne=(0,))},
         "mesh": {"type": "mesh", "uvs": lst, "triangles": [0, 1, 2], "vertices": lst, "hull": 3, "path": img(nm + "mp")},
         "linkedmesh": {"type": "linkedmesh", "parent": kw.pop("parent", "mm"), "path": img(nm + "lp"), "deform": False},
         "boundingbox": {"type": "boundingbox", "vertexCount": 2, "vertices": lst},
         "path": {"type": "path", "vertexCount": 2, "vertices": lst, "lengths": [num(nm + "l")]},
         "point": {"type": "point", "x": num(nm + "px", ne=(0,)), "color": "ff00ff00"},
         "clipping": {"type": "clipping", "end": kw.pop("end", None), "vertexCount": 2, "vertices": lst}}[kind]
    o = {k: v for k, v in o.items() if v is not None}
    o.update(kw)
    return o


class Names:
    """distinct unknown names; style 0: without underscores and blanks, 9: anything, others: awkward endings"""

    def __init__(self, style=0):
        self.style, self.tab = style, {}

    def __call__(self, x):
        if x not in self.tab:
            i = len(self.tab)
            tails = [[], ["_SLOT"], ["_ATTACHMENT"], ["_IMAGE"], ["_SLOT_ATTACHMENT"], [" "], ["_BONE"]]
            t = tails[0] if self.style in (0, 9) else tails[(i * 3 + self.style) % len(tails)]
            self.tab[x] = mkcat([name("n_" + x, "names", ne=("root", "None", "default"), nochars="[" if self.style == 9 else "[_ /")] + [C(p) for p in t])
        return self.tab[x]


def companion(N):
    """a slot that is always visible, with its attachment"""
    return {"name": N("K"), "bone": "root", "attachment": N("ka")}, {N("ka"): att("region", "ka")}


# ---------------------------------------------------------------- one slot in focus
SETUPS = {}
for _a in (None, "a", "gone"):
    for _c, _col in (("", None), ("transparent", "fF3a7F00"), ("faint", "00000001"), ("coloured", "ff0000f0")):
        for _d in (None, "101010"):
            for _b in (None, "additive"):
                _s = {k: v for k, v in (("attachment", _a), ("color", _col), ("dark", _d), ("blend", _b)) if v is not None}
                SETUPS[", ".join(x for x in ("attachment %s" % _a if _a else "", _c, "dark colour" if _d else "", "blend mode" if _b else "") if x) or "nothing"] = _s
CONTENTS = {
    "none": {},
    "region": {"a": "region"},
    "two regions": {"a": "region", "b": "regionpath"},
    "other region": {"b": "regionname"},
    "region, mesh": {"a": "region", "m": "mesh"},
    "mesh": {"a": "mesh"},
    "other mesh": {"m": "mesh"},
    "mesh, linked mesh": {"m": "mesh", "a": "linkedmesh", "b": "linkedmesh"},
    "linked mesh only": {"b": "linkedmesh"},
    "region, other kinds": {"a": "region", "p": "path", "q": "point", "r": "boundingbox", "c": "clipping"},
    "other kinds": {"a": "boundingbox", "b": "point", "p": "path"},
}


def key(n, t):
    r = {"name": n}
    if t != 0:
        r["time"] = t
    return r


def timelines(N):
    t = lambda i: num("t%d" % i, ne=(0,))  # noqa: E731
    u = core_num("u")
    col = [{"time": t(7), "color": name("col7")}]
    two = [{"time": t(8), "light": name("li8"), "dark": name("da8")}]
    return {
        "absent": None,
        "empty": {},
        "hidden at 0": {"attachment": [key(None, 0)]},
        "hidden at some time": {"attachment": [key(None, u)]},
        "hidden later": {"attachment": [key(None, t(1))]},
        "hidden, then b": {"attachment": [key(None, 0), key(N("b"), t(1))]},
        "hidden twice": {"attachment": [key(None, 0), key(None, t(1))]},
        "a": {"attachment": [key(N("a"), 0)]},
        "b later": {"attachment": [key(N("b"), t(1))]},
        "a, b, hidden": {"attachment": [key(N("a"), t(1)), key(N("b"), t(2)), key(None, t(3))]},
        "colour": {"color": col},
        "two colours": {"twoColor": two},
        "hidden, colour": {"attachment": [key(None, 0)], "color": col},
        "hidden, two colours": {"attachment": [key(None, 0)], "twoColor": two},
        "b, colour": {"attachment": [key(N("b"), 0)], "color": col},
        "m": {"attachment": [key(N("m"), t(4))]},
        "linked b, hidden": {"attachment": [key(N("b"), 0), key(None, t(2))], "twoColor": two},
        "the name None": {"attachment": [key("None", 0)]},
    }


def focus(N, setup, content, tls, where="first"):
    return several(N, [(setup, content, tls)], where)


def several(N, cells, where="first"):
    """slots with the given setups, skin contents and timelines, next to one that is always visible"""
    K, katts = companion(N)
    bones = [dict(ROOT), {"name": "b1", "parent": "root"}]
    slots, atts = [], {N("K"): katts}
    an = {}
    for q, (setup, content, tls) in enumerate(cells):
        def M(x, q=q):
            return N(x if q == 0 or x in ("K", "ka", "gone") else "%s%d" % (x, q))
        s = {"name": M("F"), "bone": "b1"}
        for k, v in SETUPS[setup].items():
            s[k] = M(v) if k == "attachment" else v
        fatts = {}
        for n, kind in CONTENTS[content].items():
            kw = {"parent": M("m")} if kind == "linkedmesh" else {}
            if kind == "clipping":
                kw = {"end": N("K")}
            fatts[M(n)] = att(kind, "f%s%s" % (q or "", n), **kw)
        slots.append(s)
        if fatts:
            atts[M("F")] = fatts
        T = timelines(M)
        for i, t in enumerate(tls):
            a = an.setdefault(N("anim%d" % i), {"bones": {"b1": {"rotate": [{"angle": num("angle%d" % i), "time": num("bt%d" % i)}]}}})
            if T[t] is not None:
                a.setdefault("slots", {})[M("F")] = T[t]
                if i % 2 == 0:
                    a["slots"][N("K")] = {"color": [{"time": num("kt"), "color": name("kc")}]}
    slots.insert({"first": len(slots), "second": 0}.get(where, len(slots) // 2), K)
    return B.doc(bones=bones, slots=slots, skins=[{"name": "default", "attachments": atts}], animations=an)


def setup_class(s):
    o = SETUPS[s]
    return ("nothing" if not o else "transparent" if o.get("color", "").endswith("7F00") else "attachment" if "attachment" in o else "other")


def focus_docs(tier):
    tl = list(timelines(Names()))
    r = random.Random(20)
    n = 0
    classes = {}
    for s in SETUPS:
        classes.setdefault(setup_class(s), []).append(s)
    for _ in range(1 if tier == "quick" else 5):
        # every ordered pair of timelines for every kind of setup
        for t in tl:
            for u in [None] + tl:
                ts = (t,) if u is None else (t, u)
                if len(ts) == 2 and r.random() < .08:
                    ts += (r.choice(tl),)
                yield from one(n, [(r.choice(c), r.choice(list(CONTENTS)), ts) for c in classes.values()])
                n += 1
        # every setup with every skin content
        cells = [(s, c) for s in SETUPS for c in CONTENTS]
        r.shuffle(cells)
        for i in range(0, len(cells), 3):
            m = r.choice([1, 1, 2])
            yield from one(n, [(s, c, tuple(r.choice(tl) for _ in range(m))) for s, c in cells[i:i + 3]])
            n += 1


def one(n, cells):
    seen = set(t for _, _, t in cells)
    if len(seen) == 1:
        sid = "slots with timelines %s; %s" % (" | ".join(cells[0][2]), " / ".join("setup %s, skin %s" % c[:2] for c in cells))
    else:
        sid = "slots with %s" % " / ".join("setup %s, skin %s, timelines %s" % (s, c, " | ".join(t)) for s, c, t in cells)
    yield "%d: %s" % (n, sid), several(Names((n // 3) % 8 if n % 3 == 0 else (9 if n % 11 == 0 else 0)), cells, ["first", "second", "middle"][n % 3])


# ---------------------------------------------------------------- several slots that refer to each other
def mixed_docs(tier):
    yield from fixed_docs()
    yield from sparse_docs()
    for seed in range(70 if tier == "quick" else 900):
        yield "combination %d" % seed, random_doc(seed)


def fixed_docs():
    N = Names()
    K, katts = companion(N)
    hide = {"attachment": [key(None, 0)]}
    rot = {"bones": {"root": {"rotate": [{"angle": num("an")}]}}}

    def D1(slots, atts, an, **kw):
        return B.doc(slots=[K] + slots, skins=[{"name": "default", "attachments": {N("K"): katts, **atts}}], animations=an, **kw)
    F1 = {"name": N("F"), "bone": "root", "attachment": N("a")}
    G1 = {"name": N("G"), "bone": "root", "attachment": N("a")}
    yield "slot hidden in every animation, attachment shared with a visible slot", D1(
        [F1, G1], {N("F"): {N("a"): att("region", "fa")}, N("G"): {N("a"): att("regionpath", "ga")}},
        {N("x"): {"slots": {N("F"): hide}}, N("y"): {"slots": {N("F"): hide}}})
    yield "attachment used in one slot only, present in two", D1(
        [F1, {"name": N("G"), "bone": "root", "attachment": N("b")}],
        {N("F"): {N("a"): att("region", "fa")}, N("G"): {N("a"): att("region", "ga"), N("b"): att("region", "gb")}}, {N("x"): rot})
    yield "mesh of a visible slot, same name in a hidden slot", D1(
        [F1, {"name": N("G"), "bone": "root", "attachment": N("b")}],
        {N("F"): {N("a"): att("region", "fa"), N("m"): att("region", "fm")}, N("G"): {N("b"): att("region", "gb"), N("m"): att("mesh", "gm")}}, {N("x"): rot})
    yield "slots hidden in a row", D1(
        [F1, {"name": N("G"), "bone": "root"}, {"name": N("H"), "bone": "root"}, {"name": N("I"), "bone": "root", "attachment": N("i")}],
        {N("F"): {N("a"): att("region", "fa")}, N("G"): {N("g"): att("region", "gg")}, N("H"): {N("h"): att("mesh", "hh")}, N("I"): {N("i"): att("mesh", "ii")}},
        {N("x"): {"slots": {N("F"): hide}}})
    for tgt in ("F", "G"):
        yield "path constraint on %s" % ("a hidden slot" if tgt == "F" else "an empty slot"), D1(
            [F1, {"name": N("G"), "bone": "root"}], {N("F"): {N("a"): att("path", "fp"), N("b"): att("region", "fb")}},
            {N("x"): {"slots": {N("F"): hide}, "path": {N("pc"): {"position": [{"position": num("pp", ne=(0,)), "time": num("pt")}]}}}},
            path=[{"name": N("pc"), "bones": ["root"], "target": N(tgt)}])
    yield "two path constraints on hidden slots", D1(
        [F1, {"name": N("G"), "bone": "root", "attachment": N("g")}, {"name": N("H"), "bone": "root"}],
        {N("F"): {N("a"): att("path", "fp")}, N("G"): {N("g"): att("path", "gp")}},
        {N("x"): {"slots": {N("F"): hide, N("G"): hide}}},
        path=[{"name": N("pc"), "bones": ["root"], "target": N("G")}, {"name": N("pd"), "bones": ["root"], "target": N("F")}])
    yield "clipping until an empty slot", D1(
        [{"name": N("F"), "bone": "root", "attachment": N("c")}, {"name": N("G"), "bone": "root"}, {"name": N("H"), "bone": "root"}],
        {N("F"): {N("c"): att("clipping", "fc", end=N("G"))}}, {N("x"): rot})
    yield "clipping until a hidden slot", D1(
        [{"name": N("F"), "bone": "root", "attachment": N("c")}, G1],
        {N("F"): {N("c"): att("clipping", "fc", end=N("G"))}, N("G"): {N("a"): att("region", "ga")}}, {N("x"): {"slots": {N("G"): hide}}})
    yield "deforms of removed slots and attachments", D1(
        [F1, {"name": N("G"), "bone": "root", "attachment": N("g")}],
        {N("F"): {N("a"): att("region", "fa")}, N("G"): {N("g"): att("mesh", "gm"), N("u"): att("linkedmesh", "gu", parent=N("g"))}},
        {N("x"): {"slots": {N("F"): hide}, "deform": {"default": {N("F"): {N("a"): [{"time": num("d1")}]}, N("G"): {N("g"): [{"time": num("d2"), "offset": num("o", types=INT)}],
                                                                                                              N("u"): [{"time": num("d3")}]}}}},
         N("y"): {"slots": {N("F"): hide}, "deform": {"default": {N("G"): {N("u"): [{"time": num("d4")}]}}}}})
    F2 = {"name": N("F"), "bone": "root", "attachment": N("a")}
    skins = [{"name": "default", "attachments": {N("K"): katts, N("F"): {N("a"): att("region", "fa")}}},
             {"name": N("sk1"), "attachments": {N("F"): {N("a"): att("mesh", "fa1"), N("b"): att("region", "fb1")}, N("G"): {N("g"): att("region", "gg1")}}},
             {"name": N("sk2"), "attachments": {N("F"): {N("b"): att("mesh", "fb2"), N("c"): att("linkedmesh", "fc2", parent=N("b"), skin=N("sk1"))}}},
             {"name": N("sk3")}]
    for sid, an in {"shown": {N("x"): rot}, "hidden": {N("x"): {"slots": {N("F"): hide}}},
                    "shown by a key": {N("x"): {"slots": {N("F"): {"attachment": [key(None, 0), key(N("b"), num("t"))]}},
                                               "deform": {N("sk1"): {N("F"): {N("a"): [{"time": num("d1")}], N("b"): [{"time": num("d2")}]}},
                                                          N("sk2"): {N("F"): {N("c"): [{"time": num("d3")}]}},
                                                          "default": {N("F"): {N("a"): [{"time": num("d5")}]}}}}}}.items():
        yield "four skins, slot " + sid, B.doc(slots=[K, F2, {"name": N("G"), "bone": "root"}], skins=skins, animations=an)
    yield "one name for everything", B.doc(
        bones=[dict(ROOT), {"name": N("o"), "parent": "root"}],
        slots=[{"name": N("o"), "bone": N("o"), "attachment": N("o")}, {"name": N("p"), "bone": N("o"), "attachment": N("q")}, {"name": N("q"), "bone": "root"}],
        skins=[{"name": "default", "attachments": {N("o"): {N("o"): {"path": N("o")}}, N("p"): {N("q"): {"path": N("p")}}, N("q"): {N("p"): {"path": N("o")}}}}],
        ik=[{"name": N("o"), "bones": [N("o")], "target": "root"}], events={N("o"): {"int": num("i", ne=(0,))}},
        animations={N("o"): {"slots": {N("o"): {"color": [{"color": name("c"), "time": num("t")}]}, N("p"): {"attachment": [key(None, 0)]}},
                             "events": [{"name": N("o"), "time": num("et")}]}})
    yield "images shared between used and unused attachments", D1(
        [F1, {"name": N("G"), "bone": "root"}],
        {N("F"): {N("a"): {"path": N("im1")}, N("b"): {"path": N("im1")}, N("c"): {"path": N("im2")}, N("d"): {"name": N("im2")}, N("im3"): {}, N("e"): {"path": N("im3")}},
         N("G"): {N("z"): {"path": N("im4")}}},
        {N("x"): {"slots": {N("F"): {"attachment": [key(N("b"), num("t", ne=(0,)))]}}}})
    yield "constraints and header", D1(
        [F1], {N("F"): {N("a"): att("region", "fa")}}, {N("x"): {"ik": {N("ik1"): [{"mix": num("m", ne=(1,)), "time": num("it")}]},
                                                              "transform": {N("tr1"): [{"rotateMix": num("rm", ne=(1,)), "time": num("tt")}]},
                                                              "slots": {N("F"): hide}, "events": [{"name": N("ev"), "time": num("et"), "string": name("es")}]}},
        bones=[dict(ROOT, scaleX=num("rsx", ne=(1,))), {"name": N("b1"), "parent": "root", "length": num("len", ne=(0,)), "transform": "noScale"},
               {"name": N("b2"), "parent": N("b1"), "color": "aabbccdd", "shearY": num("shy", ne=(0,))}, {"name": N("b3"), "parent": "root"}],
        ik=[{"name": N("ik1"), "bones": [N("b1"), N("b2")], "target": N("b3"), "order": num("io", types=INT, truth=True)},
            {"name": N("ik2"), "bones": [N("b3")], "target": "root", "bendPositive": False}],
        transform=[{"name": N("tr1"), "bones": [N("b2")], "target": N("b3"), "rotateMix": num("trm", ne=(1,))}],
        events={N("ev"): {"float": num("evf", ne=(0,)), "string": name("evs")}}, head=B.header(images="./img/", x=num("hx"), audio=name("au")))


def sparse_docs():
    """documents and animations in which sections are missing or empty"""
    N = Names()
    K, katts = companion(N)
    F1, G1 = {"name": N("F"), "bone": "root"}, {"name": N("G"), "bone": "root", "attachment": N("g")}
    skins = [{"name": "default", "attachments": {N("K"): katts, N("F"): {N("a"): att("mesh", "fa"), N("b"): att("region", "fb")}, N("G"): {N("g"): att("mesh", "gg")}}}]
    deform = {"default": {N("F"): {N("a"): [{"time": num("d1")}]}, N("G"): {N("g"): [{"time": num("d2"), "offset": num("o", types=INT)}]}}}
    draw = [{"time": num("q"), "offsets": [{"slot": N("K"), "offset": 2}]}, {"time": num("q2"), "offsets": [{"slot": N("F"), "offset": 1}]}, {"time": num("q3")}]
    ev = [{"name": N("e"), "time": num("et")}]
    rot = {"b1": {"rotate": [{"angle": num("an")}]}}
    hide = {N("G"): {"attachment": [key(None, 0)]}}
    bones = [dict(ROOT), {"name": "b1", "parent": "root"}]
    parts = {"deforms": {"deform": deform}, "draw order": {"drawOrder": draw}, "events": {"events": ev}, "bones": {"bones": rot}, "nothing": {},
             "draw order and deforms": {"drawOrder": draw, "deform": deform}, "slots": {"slots": {N("F"): {"color": [{"time": num("ct"), "color": name("cc")}]}}},
             "slots that stay hidden": {"slots": hide, "deform": deform, "drawOrder": draw}, "empty sections": {"slots": {}, "bones": {}, "deform": {}, "drawOrder": [], "events": [], "ik": {}, "transform": {}, "path": {}},
             "empty timelines": {"slots": {N("F"): {}, N("G"): {"attachment": [], "color": []}}, "bones": {"b1": {"rotate": []}}, "deform": {"default": {N("F"): {}, N("G"): {N("g"): []}}}, "drawOrder": [{}]}}
    kw = dict(bones=bones, slots=[K, F1, G1], skins=skins, events={N("e"): {"int": num("ei", ne=(0,), types=INT)}})
    for what, a in parts.items():
        yield "an animation of %s" % what, B.doc(animations={N("x"): a}, **kw)
    yield "animations of one section each", B.doc(animations={N("x%d" % i): a for i, a in enumerate(parts.values())}, **kw)
    yield "no animations", B.doc(animations={}, **kw)
    yield "without animations", B.doc(**kw)
    hidden = {N("x"): parts["slots that stay hidden"], N("y"): parts["nothing"]}
    for what, sk in {"no skins": [], "one empty skin": [{"name": "default"}], "no default skin": [{"name": N("sk1"), "attachments": skins[0]["attachments"]}],
                     "a skin without attachments of its slots": [{"name": "default", "attachments": {N("K"): katts, N("F"): {}, N("G"): {}}}]}.items():
        yield what, B.doc(animations=hidden, **dict(kw, skins=sk))
    d = B.doc(animations={N("y"): parts["nothing"], N("x"): parts["events"]}, **dict(kw, skins=[], slots=[]))
    yield "no slots", d
    yield "without slots", {k: v for k, v in d.items() if k != "slots"}
    yield "without skins", {k: v for k, v in d.items() if k != "skins"}
    yield "bones only", {k: v for k, v in d.items() if k in ("skeleton", "bones")}


def whole_docs():
    yield from fixed_docs()
    yield from sparse_docs()


def valid_offsets(r, n):
    """offsets of a valid draw order key over n slots"""
    perm = list(range(n))
    r.shuffle(perm)
    moved = sorted(r.sample(range(n), r.randint(1, n)))
    pos = {i: perm.index(i) for i in range(n)}
    # listed slots go to their place in perm, the others keep their relative order in the rest
    return [(i, pos[i] - i) for i in moved]


def random_doc(seed):
    r = random.Random(1000 + seed)
    N = Names(r.choice([0, 0, 0, 1, 2, 3, 4]))
    T = timelines(N)
    n = r.randint(2, 4)
    sl = ["S%d" % i for i in range(n)]
    pool = ["a", "b", "m", "c"]
    K, katts = companion(N)
    slots, atts = [], {N("K"): katts}
    extra = [{} for _ in range(r.choice([0, 0, 1]))]
    for s in sl:
        d = {"name": N(s), "bone": r.choice(["root", "b1"])}
        for k, v in SETUPS[r.choice(list(SETUPS))].items():
            d[k] = N(v) if k == "attachment" else v
        if "attachment" in d and r.random() < .4:
            d["attachment"] = N(r.choice(pool))
        slots.append(d)
        for i, m in enumerate([atts] + extra):
            c = {}
            for a in r.sample(pool, r.randint(0, 3)):
                k = r.choice(["region", "region", "regionpath", "regionname", "mesh", "mesh", "linkedmesh", "path", "boundingbox", "clipping", "point"])
                kw = {"parent": N("m")} if k == "linkedmesh" else ({"end": N(r.choice(sl))} if k == "clipping" else {})
                c[N(a)] = att(k, "%s%s%d" % (s, a, i), **kw)
                if k.startswith("region") and r.random() < .3:
                    c[N(a)]["path"] = N(r.choice(["im1", "im2", "a"]))
            if c:
                m[N(s)] = c
    slots.insert(r.randint(0, n), K)
    skins = [{"name": "default", "attachments": atts}] + [{"name": N("skin%d" % i), "attachments": m} for i, m in enumerate(extra)]
    an = {}
    for j in range(r.randint(1, 2)):
        a = {"slots": {}}
        for s in sl:
            t = T[r.choice([x for x in T if x != "hidden at some time"])]
            if t is not None:
                a["slots"][N(s)] = t
        if r.random() < .5:
            a["deform"] = {}
            for sk in r.sample(skins, r.randint(1, len(skins))):
                a["deform"][sk["name"]] = {N(s): {N(x): [{"time": num("d%s%s" % (s, x))}] for x in r.sample(pool, 2)} for s in r.sample(sl, r.randint(1, n))}
        if r.random() < .5:
            keys = []
            for q in range(r.randint(1, 2)):
                order = [x["name"] for x in slots]
                keys.append({"time": num("q%d%d" % (j, q)), "offsets": [{"slot": order[i], "offset": o} for i, o in valid_offsets(r, len(order))]})
            a["drawOrder"] = keys
        an[N("A%d" % j)] = a
    kw = {}
    if r.random() < .3:
        kw["path"] = [{"name": N("pc"), "bones": ["b1"], "target": N(r.choice(sl))}]
    if r.random() < .3:
        kw["ik"] = [{"name": N("ik"), "bones": ["b1"], "target": "root", "mix": num("mix", ne=(1,))}]
    return B.doc(bones=[dict(ROOT), {"name": "b1", "parent": "root"}], slots=slots, skins=skins, animations=an, **kw)


def order_docs(tier):
    """draw order keys when slots disappear"""
    r = random.Random(7)
    for q in range(60 if tier == "quick" else 900):
        n = r.randint(2, 5 if tier == "quick" else 6)
        N = Names()
        gone = r.sample(range(n), r.randint(1, n - 1))
        how = r.choice(["hidden", "empty"])
        slots, atts = [], {}
        for i in range(n):
            s = {"name": N("S%d" % i), "bone": "root"}
            if i not in gone or how == "hidden":
                s["attachment"] = N("a%d" % i)
            atts[s["name"]] = {N("a%d" % i): {"x": num("x%d" % i)}}
            slots.append(s)
        tl = {N("S%d" % i): {"attachment": [key(None, 0)]} for i in gone} if how == "hidden" else {}
        keys = [{"time": num("t%d" % k), "offsets": [{"slot": N("S%d" % i), "offset": o} for i, o in valid_offsets(r, n)]} for k in range(r.randint(1, 2))]
        if r.random() < .3:
            keys.append({"time": num("tlast")})
        an = {N("A"): {"slots": tl, "drawOrder": keys}}
        if r.random() < .3:
            an[N("B")] = {"slots": tl, "drawOrder": [{"time": num("s"), "offsets": [{"slot": N("S%d" % i), "offset": o} for i, o in valid_offsets(r, n)]}]}
        yield "draw order %d: %d slots without %s, %s" % (q, n, sorted(gone), " / ".join(
            ",".join("%d:%+d" % ([s["name"] for s in slots].index(o["slot"]), o["offset"]) for o in k.get("offsets", [])) for k in keys)), B.doc(
                slots=slots, skins=[{"name": "default", "attachments": atts}], animations=an)


def all_offsets(n):
    """every valid draw order key for n slots"""
    for k in range(1, n + 1):
        for who in itertools.combinations(range(n), k):
            for to in itertools.permutations(range(n), k):
                yield [(i, t - i) for i, t in zip(who, to)]


def all_orders(tier):
    """all draw order keys for few slots, every set of disappearing slots"""
    for n in (2, 3, 4) if tier == "quick" else (2, 3, 4, 5):
        every = list(all_offsets(n))
        for m in range(1, 2 ** n - 1):
            gone = [i for i in range(n) if m >> i & 1]
            r = random.Random(m * 10 + n)
            keys = every if n < 4 else r.sample(every, 60 if tier == "quick" else min(len(every), 250))
            N = Names()
            names = [N("S%d" % i) for i in range(n)]
            for how in ("hidden", "empty") if tier != "quick" or n < 3 else ("hidden", "empty")[m % 2:][:1]:
                slots = [dict({"name": x, "bone": "root"}, **({} if i in gone and how == "empty" else {"attachment": N("a%d" % i)})) for i, x in enumerate(names)]
                an = {}
                for j in range(0, len(keys), 20):
                    an[N("A%d" % j)] = {"slots": {names[i]: {"attachment": [key(None, 0)]} for i in gone} if how == "hidden" else {},
                                        "drawOrder": [{"time": num("t%d" % (j + k)), "offsets": [{"slot": names[i], "offset": o} for i, o in x]} for k, x in enumerate(keys[j:j + 20])]}
                yield "all draw order keys for %d slots without %s, %s" % (n, gone, how), B.doc(
                    slots=slots, skins=[{"name": "default", "attachments": {x: {N("a%d" % i): {"x": num("x%d" % i)}} for i, x in enumerate(names)}}], animations=an)


def docs(tier):
    yield from focus_docs(tier)
    yield from mixed_docs(tier)


CLEAN = "drivers:clean"


def guarded(f):
    def check(out):
        doc = out.args[0]

        def go(assumed):
            R.ASSUMED.clear()
            R.ASSUMED.update(assumed)
            try:
                ps = f(out, doc)
                return ps if f.__name__ == "exact" else soft(ps, out.ret(0))
            except R.Undecided as e:
                x = e.args[0]
                if not isinstance(x, Sym) or x in assumed or len(assumed) > 3:
                    return [("unk", "specification needs to know %r" % x)]
                r = []
                for v in (True, False):
                    a = dict(assumed)
                    a[x] = v
                    if out.feasible({("eq", C(0), x): v}):
                        r += go(a)
                return r
            finally:
                R.ASSUMED.clear()
        return go({})
    return check


def listed(x, what):
    if isinstance(x, Unknown):
        return [("unk", "%s not known" % what)]
    return []


def entries(d):
    return list(d.items()) if isinstance(d, dict) else []


def unsure(d):
    return isinstance(d, Unknown) or isinstance(d, dict) and (getattr(d, "many", []) or getattr(d, "fuzzy", []))


def named(lst):
    return [x.get("name") if isinstance(x, dict) else x for x in lst]


@guarded
def no_dangling_slots(out, doc):
    """C15: nothing refers to a slot that is not there, unless it did before"""
    got = norm(F.DOC, out.ret(0))
    if isinstance(got, Unknown):
        return [("unk", "document not known")]
    have = named(got.get("slots", []))
    before = [s["name"] for s in doc.get("slots", [])]
    refs = []
    for sk in got.get("skins", []):
        at = sk.get("attachments", {})
        refs += [(sl, "skin %r" % sk.get("name")) for sl in at]
        for m in at.values():
            refs += [(o["end"], "a clipping attachment") for o in m.values() if isinstance(o, dict) and "end" in o]
    for an, a in entries(got.get("animations", {})):
        refs += [(sl, "the slot timelines of animation %r" % an) for sl in a.get("slots", {})]
        for sk, d in entries(a.get("deform", {})):
            refs += [(sl, "the deforms of animation %r" % an) for sl in d]
        for k in a.get("drawOrder", []):
            refs += [(o.get("slot"), "the draw order of animation %r" % an) for o in k.get("offsets", []) if isinstance(o, dict)]
    refs += [(p.get("target"), "path constraint %r" % p.get("name")) for p in got.get("path", [])]
    r = []
    for x, where in refs:
        if isinstance(x, Unknown):
            r.append(("unk", where))
        elif x in before and x not in have:
            r.append("%s refers to the removed slot %r" % (where, x))
    return r


@guarded
def no_dangling_attachments(out, doc):
    """C16: nothing refers to a removed attachment"""
    got = norm(F.DOC, out.ret(0))
    if isinstance(got, Unknown):
        return [("unk", "document not known")]
    there = {(sk.get("name"), sl): list(m) for sk in got.get("skins", []) for sl, m in sk.get("attachments", {}).items()}
    was = {(sk["name"], sl): list(m) for sk in doc.get("skins", []) for sl, m in (sk.get("attachments") or {}).items()}
    meshes = {(sk["name"], sl): [n for n, o in m.items() if o.get("type") == "mesh"] for sk in doc.get("skins", []) for sl, m in (sk.get("attachments") or {}).items()}
    r = []
    for an, a in entries(got.get("animations", {})):
        for sk, d in entries(a.get("deform", {})):
            for sl, m in entries(d):
                for n in m:
                    if n in was.get((sk, sl), []) and n not in there.get((sk, sl), []):
                        r.append("animation %r deforms the removed attachment %r of slot %r in skin %r" % (an, n, sl, sk))
    for s in got.get("slots", []):
        n, a = s.get("name"), s.get("attachment")
        if a is not None and any(a in m for (sk, sl), m in was.items() if sl == n) and not any(a in m for (sk, sl), m in there.items() if sl == n):
            r.append("slot %r shows the removed attachment %r at setup" % (n, a))
    for sk in got.get("skins", []):
        for sl, m in sk.get("attachments", {}).items():
            for n, o in m.items():
                if isinstance(o, dict) and o.get("type") == "linkedmesh" and "parent" in o:
                    src = (o.get("skin") or "default", sl)
                    if o["parent"] in meshes.get(src, []) and o["parent"] not in there.get(src, []):
                        r.append("linked mesh %r of slot %r lost its parent %r" % (n, sl, o["parent"]))
    return r


@guarded
def keeps_needed(out, doc):
    """C17: everything that is visible or pointed to stays"""
    gone, gone_att = R.removals(doc)
    got = norm(F.DOC, out.ret(0))
    if isinstance(got, Unknown) or unsure(got):
        return [("unk", "document not known")]
    have = named(got.get("slots", []))
    r = []
    for s in doc.get("slots", []):
        if s["name"] not in gone and s["name"] not in have:
            r.append("slot %r was removed although it is needed" % s["name"])
    skins = {sk.get("name"): sk for sk in got.get("skins", [])}
    for i, sl, n, o in R.attachments_of(doc):
        sk = doc.get("skins", [])[i]["name"]
        if sl in gone or n in gone_att:
            continue
        if sk not in skins:
            r.append("skin %r was removed" % sk)
        elif n not in skins[sk].get("attachments", {}).get(sl, {}):
            if unsure(skins[sk].get("attachments")):
                r.append(("unk", "skin %r" % sk))
            else:
                r.append("attachment %r of slot %r in skin %r was removed although it is needed" % (n, sl, sk))
    for an, a in entries(doc.get("animations", SDict())):
        g = got.get("animations", {}).get(an, {})
        for part in ("slots",):
            for sl in a.get(part) or {}:
                if sl not in gone and not F.empty(norm(F.A_SLOT, a[part][sl])) and sl not in g.get(part, {}):
                    r.append("the timelines of slot %r in animation %r were removed" % (sl, an))
    return r


@guarded
def removes_unused(out, doc):
    """C18: what can be seen in no animation is gone"""
    gone, gone_att = R.removals(doc)
    got = norm(F.DOC, out.ret(0))
    if isinstance(got, Unknown) or unsure(got):
        return [("unk", "document not known")]
    r = []
    for n in named(got.get("slots", [])):
        if n in gone:
            r.append("slot %r is kept although it is visible in no animation or empty" % n)
    for sk in got.get("skins", []):
        for sl, m in entries(sk.get("attachments", {})):
            if sl in gone:
                r.append("skin %r still has attachments for the removed slot %r" % (sk.get("name"), sl))
            for n in m:
                if n in gone_att:
                    r.append("attachment %r of slot %r in skin %r is kept although no animation uses it" % (n, sl, sk.get("name")))
    return r


@guarded
def exact(out, doc):
    """C19: apart from what is removed, nothing changes"""
    want = norm(F.DOC, R.expected(doc))
    got = R.with_orders(norm(F.DOC, out.ret(0)))
    return problems(compare(got, want, "document"))


@guarded
def draw_order(out, doc):
    """C23: the remaining slots keep being drawn in the same order"""
    want = R.expected(doc)["animations"]
    got = R.with_orders(norm(F.DOC, out.ret(0)))
    if isinstance(got, Unknown):
        return [("unk", "document not known")]
    r = []
    for an, a in entries(want):
        w = [(k.get("time", 0), k["order"]) for k in a.get("drawOrder", [])]
        g = got.get("animations", {}).get(an, {}).get("drawOrder", [])
        if isinstance(g, Unknown):
            r.append(("unk", "draw order not known"))
            continue
        if len(g) != len(w):
            r.append("animation %r: %d draw order keys instead of %d" % (an, len(g), len(w)))
            continue
        for (t, o), k in zip(w, g):
            if isinstance(k, Unknown) or isinstance(k, Rest):
                r.append(("unk", "draw order key not known"))
            elif o is not None and k.get("order") != o:
                r.append("animation %r, key at %r: slots are drawn as %s instead of %s" % (an, t, "nothing valid" if k.get("order") is None else k["order"], o))
            elif k.get("time", 0) != t:
                r.append("animation %r: draw order key moved from %r to %r" % (an, t, k.get("time")))
    return r


def images_of(doc):
    r = []
    for _, _, n, o in R.attachments_of(doc):
        if o.get("type") in (None, "mesh", "linkedmesh"):
            x = o.get("path") or o.get("name") or n
            if x not in r:
                r.append(x)
    return r


def gen(check, also=()):
    def g(tier):
        for sid, d in docs(tier):
            yield Scenario(sid, CLEAN, [d], check)
        for f in also:
            for sid, d in f(tier):
                yield Scenario(sid, CLEAN, [d], check)
    return g


c15 = gen(no_dangling_slots, [order_docs])
c16 = gen(no_dangling_attachments)
c17 = gen(keeps_needed)
c18 = gen(removes_unused)
c19 = gen(exact, [order_docs])


def c23(tier):
    for sid, d in itertools.chain(all_orders(tier), order_docs(tier)):
        yield Scenario(sid, CLEAN, [d], draw_order)
    for sid, d in mixed_docs(tier):
        if any("drawOrder" in a for a in d.get("animations", {}).values()):
            yield Scenario(sid, CLEAN, [d], draw_order)
