"""C04, C12, C13, C14, C20, C21, C22, C27, C28: editing operations, image references, sharing, files."""
import itertools
import posixpath
import random

from base import *  # noqa
import base as B
from core import SDict, hazy, soft
import fmt38 as F
import p_clean as P
import ref_clean as R
from p_clean import Names, att, companion, key, num
from domain import poly_mul, poly_of
from ops import eqkey
from lib import path_join

ROOT = B.ROOTBONE


# ---------------------------------------------------------------- what the operations have to do
def without_animations(doc, names):
    r = dict(doc)
    r["animations"] = {k: v for k, v in doc.get("animations", SDict()).items() if k not in names}
    return r


OWN = ("name", "path", "width", "height", "color")


def without_skin(doc, gone):
    """the document after skin `gone` was removed; meshes linked to it become independent"""
    r = dict(doc)
    src = [s for s in doc.get("skins", []) if s["name"] == gone][0].get("attachments") or {}
    r["skins"] = []
    for sk in doc.get("skins", []):
        if sk["name"] == gone:
            continue
        sk = dict(sk)
        if sk.get("attachments"):
            at = {}
            for sl, m in sk["attachments"].items():
                at[sl] = {}
                for n, o in m.items():
                    if o.get("type") == "linkedmesh" and (o.get("skin") or "default") == gone:
                        mesh = dict(src[sl][o.get("parent") or n])
                        for k in OWN:
                            mesh.pop(k, None)
                            if o.get(k) is not None:
                                mesh[k] = o[k]
                        o = mesh
                    at[sl][n] = o
            sk["attachments"] = at
        r["skins"].append(sk)
    r["animations"] = {}
    for an, a in doc.get("animations", SDict()).items():
        a = dict(a)
        if a.get("deform"):
            a["deform"] = {k: v for k, v in a["deform"].items() if k != gone}
        r["animations"][an] = a
    return r


def without_skins(doc, names):
    for n in dict.fromkeys(names):
        doc = without_skin(doc, n)
    return doc


def same(out, got, want):
    return problems(compare(R.with_orders(norm(F.DOC, got)), norm(F.DOC, want), "document"))


def guard(f):
    """check(out, doc, *other arguments); see p_clean.guarded"""
    def check(out):
        args = out.args

        def go(assumed):
            R.ASSUMED.clear()
            R.ASSUMED.update(assumed)
            try:
                return f(out, *args)
            except R.Undecided as e:
                x = e.args[0]
                if not isinstance(x, Sym) or x in assumed or len(assumed) > 3:
                    return [("unk", "specification needs to know %r" % x)]
                r = []
                for v in (True, False):
                    if out.feasible({("eq", C(0), x): v}):
                        r += go(dict(assumed) | {x: v})
                return r
            finally:
                R.ASSUMED.clear()
        return go({})
    return check


def ordered(doc):
    """the same document with draw orders spelled out, as the comparison expects"""
    return R.expected_orders(doc)


def known_bool(x):
    return isinstance(x, bool)


# ---------------------------------------------------------------- erasing animations
@guard
def c12_check(out, doc, names, strict, safe):
    ok, data = out.ret(2), out.ret(3)
    if not known_bool(ok):
        return [("unk", "acceptance not known")]
    missing = [n for n in names if n not in doc.get("animations", SDict())] if isinstance(names, list) else names
    if strict and missing or not isinstance(out._args[1], list):
        r = []
        if ok:
            r.append("the request to erase %r is accepted although %r is not there" % (names, missing))
        return r + same(out, out.ret(0), ordered(doc)) + images_match(out.ret(1), doc, "image references")
    if not ok:
        return ["the request to erase %r is rejected" % (names,)]
    want = without_animations(doc, names)
    want = ordered(want) if safe else R.expected(want)
    r = same(out, out.ret(0), want)
    r += [p if isinstance(p, tuple) else "returned data: " + p for p in same(out, data, want)]
    return r


def anim_docs(tier):
    N = Names()
    for sid, d in P.whole_docs():
        if len(d.get("animations", {})) > 1:
            yield sid, d
    for s in range(14 if tier == "quick" else 300):
        d = P.random_doc(5000 + s)
        yield "combination %d" % (5000 + s), d
    r = random.Random(33)
    tl = [t for t in P.timelines(N) if t != "hidden at some time"]
    for q in range(40 if tier == "quick" else 900):
        s, c = r.choice(list(P.SETUPS)), r.choice(list(P.CONTENTS))
        t = [r.choice(tl) for _ in range(r.choice([2, 2, 3]))]
        yield "slot with setup %s; skin %s; timelines %s (%d)" % (s, c, " | ".join(t), q), P.focus(Names(r.choice([0, 0, 0, 1, 2, 3])), s, c, t)


def many_anims():
    one = {"bones": {"root": {"rotate": [{"angle": num("an"), "time": num("t")}]}}}
    c = count("anims")
    first, second, fk = name("first", "an"), name("second", "an"), fam("others", c, "an")
    d = B.doc(animations=D((first, one), (second, one), (fk, {"slots": {"s": {"color": [{"color": name("col"), "time": num("u")}]}}}, "all")),
              slots=[{"name": "s", "bone": "root", "attachment": "a"}], skins=[{"name": "default", "attachments": {"s": {"a": {"x": num("x")}}}}])
    w = B.doc(animations=D((second, one), (fk, {"slots": {"s": {"color": [{"color": name("col"), "time": num("u")}]}}}, "all")), slots=d.get("slots", []), skins=d.get("skins", []), head=d["skeleton"])
    return first, d, w


def c12(tier):
    x = name("request")
    n = 0
    for sid, d in anim_docs(tier):
        an = list(d.get("animations", {}))
        reqs = [an[:1], an[-1:], [an[0], an[0]], [], an[1:]] if len(an) > 1 else [[]]
        n += 1
        safe = n % 3 == 0
        names = reqs[n % len(reqs)]
        yield Scenario("erase %s%s; %s" % ([an.index(q) for q in names], " safely" if safe else "", sid), "drivers:erase_anims", [d, list(names), n % 2 == 0, safe], c12_check)
        if n % 4 == 0 or tier == "thorough":
            other = Names()("absent")
            for names in ([other], [an[0], other], [other, an[-1]], [other, other]):
                for strict in (True, False):
                    for safe in (True, False):
                        if len(names) > 1 and len(an) < 2 and not strict and not safe:
                            continue
                        yield Scenario("erase %s%s%s; %s" % ([("absent" if q is other else an.index(q)) for q in names], " strictly" if strict else "", " safely" if safe else "", sid),
                                       "drivers:erase_anims", [d, list(names), strict, safe], c12_check)
    N = Names()
    d = [d for s, d in P.fixed_docs() if s == "deforms of removed slots and attachments"][0]
    for strict, safe in itertools.product((True, False), repeat=2):
        yield Scenario("any name%s%s" % (" strictly" if strict else "", " safely" if safe else ""), "drivers:erase_anims", [d, [x], strict, safe], c12_check, free=[(x, list(d.get("animations", {})))])
        d3 = dict(d, animations=dict(d.get("animations", {})) | {N("third"): {"bones": {"root": {"rotate": [{"angle": num("an3"), "time": num("t3")}]}}}})
        x2 = name("request2")
        yield Scenario("any two names%s%s" % (" strictly" if strict else "", " safely" if safe else ""), "drivers:erase_anims",
                       [d3, [x, x2], strict, safe], c12_check, free=[(x, list(d3["animations"])), (x2, list(d3["animations"]) + [x])])
    for bad in ("text", {"a": 1}, None, 3):
        yield Scenario("request that is not a list: %s" % type(bad).__name__, "drivers:erase_anims", [d, bad, True, True], c12_check)
    first, d, w = many_anims()

    def check(out):
        r = []
        if out.ret(2) is not True:
            return ["rejected"] if out.ret(2) is False else [("unk", "acceptance not known")]
        return problems(compare(norm(F.DOC, out.ret(0)), norm(F.DOC, out.host(w)), "document"))
    yield Scenario("one of any number of animations", "drivers:erase_anims", [d, [first], True, True], check)


# ---------------------------------------------------------------- erasing skins
@guard
def c13_check(out, doc, names, safe):
    ok = out.ret(2)
    if not known_bool(ok):
        return [("unk", "acceptance not known")]
    have = [s["name"] for s in doc.get("skins", [])]
    missing = [n for n in names if n not in have]
    if missing:
        r = ["the request to erase the skins %r is accepted although %r is not there" % (names, missing)] if ok else []
        return r + same(out, out.ret(0), ordered(doc)) + images_match(out.ret(1), doc, "image references")
    if not ok:
        return ["the request to erase the skins %r is rejected" % (names,)]
    want = without_skins(doc, names)
    return same(out, out.ret(0), ordered(want) if safe else R.expected(want))


def skin_docs(tier):
    """three skins over two slots; no mesh is linked to another skin"""
    r = random.Random(41)
    for q in range(36 if tier == "quick" else 700):
        N = Names(r.choice([0, 0, 0, 1, 2, 3, 4]))
        K, katts = companion(N)
        F1 = {"name": N("F"), "bone": "root", "attachment": N(r.choice("ab"))}
        G1 = {"name": N("G"), "bone": "root"}
        if r.random() < .7:
            G1["attachment"] = N(r.choice("ac"))
        skins = [{"name": "default", "attachments": {N("K"): katts}}]
        for i in range(r.choice([2, 2, 3])):
            m = {}
            for s in r.sample("FG", r.randint(1, 2)):
                c = {}
                for a in r.sample("abc", r.randint(1, 3)):
                    k = r.choice(["region", "regionpath", "regionname", "mesh", "point", "boundingbox", "path", "clipping", "linkedmesh"])
                    kw = {}
                    if k == "linkedmesh":
                        kw = {"parent": N("mm"), "skin": N("s%d" % i)}
                        c[N("mm")] = att("mesh", "%d%smm" % (i, s))
                    if k == "clipping":
                        kw = {"end": N(r.choice("FGK"))}
                    c[N(a)] = att(k, "%d%s%s" % (i, s, a), **kw)
                    if k.startswith("region") and r.random() < .4:
                        c[N(a)]["path"] = N(r.choice(["im1", "im2", "a"]))
                m[N(s)] = c
            skins.append({"name": N("s%d" % i), "attachments": m} if r.random() < .9 else {"name": N("s%d" % i)})
        if r.random() < .5:
            r.shuffle(skins)
        an = {}
        for j in range(r.randint(1, 2)):
            a = {"slots": {N("F"): r.choice([{"attachment": [key(None, 0)]}, {"color": [{"color": name("c%d" % j), "time": num("t%d" % j)}]}, {"attachment": [key(N("c"), num("t%d" % j))]}])}}
            if r.random() < .7:
                a["deform"] = {sk["name"]: {N(s): {N(x): [{"time": num("d%d%s%s" % (j, s, x))}] for x in r.sample("abc", 2)} for s in r.sample("FG", 1)}
                               for sk in r.sample(skins, r.randint(1, len(skins)))}
            if r.random() < .4:
                a["drawOrder"] = [{"time": num("q%d" % j), "offsets": [{"slot": [N("K"), N("F"), N("G")][i], "offset": o} for i, o in P.valid_offsets(r, 3)]}]
            an[N("A%d" % j)] = a
        yield "skins %d" % q, B.doc(slots=[K, F1, G1], skins=skins, animations=an), N, r


def c13(tier):
    n = 0
    for sid, d, N, r in skin_docs(tier):
        sk = [s["name"] for s in d.get("skins", [])]
        named = [x for x in sk if x != "default"]
        n += 1
        a = r.choice(named)
        b = r.choice(sk)
        for safe, req in ((True, [a]), (False, [a]), (n % 2 == 0, r.choice([[a, b], [b, a], [a, a], [], [b], named, sk])), (n % 3 == 0, r.choice([[N("absent")], [a, N("absent")], [N("absent"), a]]))):
            yield Scenario("erase %s%s; %s" % ([sk.index(x) if x in sk else "absent" for x in req], " safely" if safe else "", sid), "drivers:erase_skins", [d, list(req), safe], c13_check)
        if n % 9 == 0:
            x, x2 = name("request"), name("request2")
            yield Scenario("erase any skin; %s" % sid, "drivers:erase_skins", [d, [x], True], c13_check, free=[(x, sk)])
            yield Scenario("erase any two skins; %s" % sid, "drivers:erase_skins", [d, [x, x2], True], c13_check, free=[(x, sk), (x2, sk + [x])])
    yield from c13_many()


def c13_many():
    c = count("skins")
    N = Names()
    one = lambda p: {N("s"): {N("a"): {"path": p, "x": num("x")}}}  # noqa: E731
    first, last = name("sk1", "sk", ne=("default",)), name("sk9", "sk", ne=("default",))
    rest = Rest({"name": fam("skr", c, "sk", ne=("default",)), "attachments": one(name("pr"))}, c)
    d = B.doc(slots=[{"name": N("s"), "bone": "root", "attachment": N("a")}], skins=[{"name": first, "attachments": one(name("p1"))}, rest, {"name": last, "attachments": one(name("p9"))}],
              animations={N("an"): {}})

    def mk(keep):
        w = dict(d, skins=keep)

        def check(out):
            if out.ret(2) is not True:
                return ["rejected"] if out.ret(2) is False else [("unk", "acceptance not known")]
            return problems(compare(norm(F.DOC, out.ret(0)), norm(F.DOC, out.host(w)), "document"))
        return check
    yield Scenario("the first of any number of skins", "drivers:erase_skins", [d, [first], True], mk([rest, d.get("skins", [])[2]]))
    yield Scenario("the last of any number of skins", "drivers:erase_skins", [d, [last], True], mk([d.get("skins", [])[0], rest]))


# ---------------------------------------------------------------- linked meshes
def mesh(nm, **kw):
    o = {"type": "mesh", "uvs": [num(nm + "u0"), num(nm + "u1")], "triangles": [num(nm + "t", types=INT)], "vertices": [num(nm + "v0"), num(nm + "v1")],
         "hull": num(nm + "h", types=INT), "edges": [num(nm + "e", types=INT)]}
    o.update(kw)
    return {k: v for k, v in o.items() if v is not None}


def linked(nm, parent, skin, own, **kw):
    o = {"type": "linkedmesh", "parent": parent, "skin": skin}
    for k in own:
        o[k] = {"name": P.img(nm + "n"), "path": P.img(nm + "p"), "color": name(nm + "c"), "width": num(nm + "w"), "height": num(nm + "hh"), "deform": False}[k]
    o.update(kw)
    return {k: v for k, v in o.items() if v is not None}


def link_docs(tier):
    r = random.Random(51)
    for q in range(60 if tier == "quick" else 900):
        N = Names(r.choice([0, 0, 0, 1, 2, 3]))
        slots = [{"name": N(s), "bone": "root", "attachment": N("m")} for s in "FG"]
        sk = ["default", N("x"), N("y"), N("z")][:r.choice([2, 3, 3, 4])]
        atts = {s: {} for s in sk}
        for s in "FG"[:r.choice([1, 2, 2])]:
            src = r.choice(sk)
            full = r.random() < .7
            for m in ["m", "n"][:r.choice([1, 2])]:
                atts[src].setdefault(N(s), {})[N(m)] = mesh("%s%s" % (s, m), **({"name": P.img(s + m + "n"), "path": P.img(s + m + "p"), "color": name(s + m + "c"),
                                                                                 "width": num(s + m + "w"), "height": num(s + m + "h")} if full else {}))
            meshes = list(atts[src][N(s)])
            for i, other in enumerate(sk):
                for j in range(r.choice([0, 1, 2])):
                    n = N(r.choice("mnop")) if other != src else N("op"[j])
                    par = r.choice(meshes)
                    own = r.sample(["name", "path", "color", "width", "height", "deform"], r.randint(0, 6))
                    if par == n and r.random() < .5 and other != src:
                        par = None  # the parent has the same name
                    if n in atts[other].get(N(s), {}):
                        continue
                    atts[other].setdefault(N(s), {})[n] = linked("%s%d%d" % (s, i, j), par, src if src != "default" or r.random() < .3 else None, own)
            if r.random() < .4:
                o = r.choice(sk)
                atts[o].setdefault(N(s), {})[N("reg")] = att("region", s + "reg")
        skins = [{"name": x, "attachments": atts[x]} for x in sk]
        if r.random() < .4:
            r.shuffle(skins)
        an = {N("A"): {"deform": {src: {N("F"): {N("m"): [{"time": num("d")}]}} for src in r.sample(sk, 1)}}}
        yield "links %d" % q, B.doc(slots=slots, skins=skins, animations=an), sk, r


@guard
def c14_check(out, doc, *names):
    """every mesh linked to a removed skin is now a mesh with the geometry of its parent"""
    if isinstance(names[-1], bool):
        names = names[:-1]
    names = [n for l in names for n in l]
    if out.ret(2) is not True:
        return ["the request is rejected"] if out.ret(2) is False else [("unk", "acceptance not known")]
    want = norm(F.DOC, without_skins(doc, names))
    got = norm(F.DOC, out.ret(0))
    if isinstance(got, Unknown):
        return [("unk", "document not known")]
    return problems(compare(got.get("skins", []), want.get("skins", []), "skins"))


def c14(tier):
    for sid, d, sk, r in link_docs(tier):
        req = r.sample(sk, r.randint(1, len(sk) - 1))
        yield Scenario("erase %s; %s" % ([sk.index(x) for x in req], sid), "drivers:erase_skins", [d, list(req), True], c14_check)
        if len(sk) > 2 and r.random() < .5:
            a, b = r.sample(sk, 2)
            yield Scenario("erase %s, then %s; %s" % (sk.index(a), sk.index(b), sid), "drivers:erase_skins_then", [d, [a], [b]], c14_check)


# ---------------------------------------------------------------- scaling
OWNSCALE = ("noScale", "noScaleOrReflection", "onlyTranslation")


def mul(a, *fs):
    v = a if isinstance(a, Val) else C(a)
    for f in fs:
        v = poly_mul(poly_of(v), poly_of(f if isinstance(f, Val) else C(f)))
    return v


def scaled(out, doc, fs):
    """(expected document, problems cannot be decided)"""
    r = dict(doc)
    r["bones"] = []
    for b in doc["bones"]:
        b = dict(b)
        if b["name"] == "root" or b.get("transform") in OWNSCALE:
            for k, i in (("scaleX", 0), ("scaleY", 1)):
                v = mul(b.get(k, 1.0), *[f[i] for f in fs])
                x = out.canon(v)
                if is_one(out, x):
                    b.pop(k, None)
                else:
                    b[k] = x
        r["bones"].append(b)
    return r


def is_one(out, x):
    if not isinstance(x, Val):
        return x == 1
    return out.st.facts.get(eqkey(C(1), x)) is True or out.st.facts.get(eqkey(C(1.0), x)) is True


def never_one(bs, *fs):
    """assume that no scale becomes exactly 1 (the other case is decided separately)"""
    r = []
    for b in bs:
        for k, i in (("scaleX", 0), ("scaleY", 1)):
            for n in range(1, len(fs) + 1):
                x = mul(b.get(k, 1.0), *[f[i] for f in fs[:n]])
                if isinstance(x, Poly):
                    r += [(eqkey(C(1), x), False), (eqkey(C(1.0), x), False)]
    return r


def c20_check(clean=False, steps=1):
    @guard
    def check(out, doc, *fs):
        fs = [fs[2 * i:2 * i + 2] for i in range(steps)]
        want = scaled(out, doc, fs)
        return same(out, out.ret(0), R.expected(want) if clean else ordered(want))
    return check


def bones(N, r, kinds):
    res = [dict(ROOT)]
    for i, k in enumerate(kinds):
        b = {"name": N("b%d" % i), "parent": r.choice([x["name"] for x in res])}
        if k:
            b["transform"] = k
        if r.random() < .5:
            b["scaleX"] = num("bx%d" % i)
        if r.random() < .5:
            b["scaleY"] = num("by%d" % i)
        if r.random() < .3:
            b.update(x=num("x%d" % i), rotation=num("r%d" % i), shearX=num("sh%d" % i), length=num("ln%d" % i))
        res.append(b)
    return res


MODES = (None, "normal", "noScale", "noScaleOrReflection", "onlyTranslation", "noRotationOrReflection")


def c20(tier):
    sx, sy, tx, ty = [core_num(n, (0, 1)) for n in ("sx", "sy", "tx", "ty")]
    r = random.Random(61)
    N = Names()
    jobs = [[m] for m in MODES] + [[m, m2] for m in MODES for m2 in MODES if tier == "thorough" or r.random() < .4]
    jobs += [[r.choice(MODES) for _ in range(r.randint(3, 5))] for _ in range(12 if tier == "quick" else 150)]
    for ks in jobs:
        for v in range(2):
            bs = bones(N, r, ks)
            if v:
                bs[0].update(r.choice([{"scaleX": num("rx")}, {"scaleY": num("ry")}, {"scaleX": num("rx"), "scaleY": num("ry"), "transform": r.choice(MODES[2:])}]))
            d = B.doc(bones=bs, slots=[{"name": N("F"), "bone": bs[-1]["name"], "attachment": N("a")}],
                      skins=[{"name": "default", "attachments": {N("F"): {N("a"): att("region", "a")}}}], animations={N("A"): {"bones": {bs[-1]["name"]: {"scale": [{"x": num("kx"), "time": num("kt")}]}}}})
            sid = "bones %s, root %s" % (ks, sorted(k for k in bs[0] if k != "name"))
            one, two = never_one(bs, (sx, sy)), never_one(bs, (sx, sy), (tx, ty))
            yield Scenario("scale; " + sid, "drivers:scale", [d, sx, sy], c20_check(), facts=one)
            if len(ks) < 3 or v:
                yield Scenario("scale, then clean; " + sid, "drivers:scale_clean", [d, sx, sy], c20_check(True), facts=one)
            if len(ks) < 2:
                yield Scenario("scale twice; " + sid, "drivers:scale_twice", [d, sx, sy, tx, ty], c20_check(False, 2), facts=two)
                yield Scenario("scale, possibly back to one; " + sid, "drivers:scale", [d, sx, sy], c20_check())
    bs = bones(N, r, ["noScale", None, "onlyTranslation"])
    for f in ((2.0, 0.5), (1, 1), (-1, 1), (0.5, core_num("g", (0, 1)))):
        yield Scenario("scale by %s" % (f,), "drivers:scale", [B.doc(bones=bs), f[0], f[1]], c20_check())
    yield Scenario("bone of any transform mode", "drivers:scale",
                   [B.doc(bones=[dict(ROOT), {"name": N("b"), "parent": "root", "transform": name("mode"), "scaleX": num("bx"), "scaleY": num("by")}]), sx, sy], c20_check(),
                   free=[(name("mode"), list(OWNSCALE))])


# ---------------------------------------------------------------- image references
def joined(folder, x):
    if not isinstance(x, Val):
        return posixpath.join(folder, x)
    return host(path_join(None, None, C(folder), x))


def host(x):
    return x.v if isinstance(x, C) else x


def folder_of(doc):
    return doc["skeleton"].get("images", "./images/")


def images_match(got, doc, what, scales=None):
    if isinstance(got, Unknown) or not isinstance(got, dict):
        return [("unk", "%s not known" % what)]
    want = {}
    for x in P.images_of(doc):
        e = {"path": host(joined(folder_of(doc), x))}
        if scales and x in scales:
            e["scale"] = scales[x]
        want[x] = e
    return problems(compare(got, want, what))


def c21(tier):
    N = Names()
    kinds = {"region, name from key": {}, "region with path": {"path": N("p")}, "region with name": {"name": N("n")}, "region with name and path": {"name": N("n"), "path": N("p")},
             "region with empty path": {"path": "", "name": N("n")},
             "mesh": mesh("m"), "mesh with path": mesh("m", path=N("p")), "mesh with name": mesh("m", name=N("n")), "mesh with name and path": mesh("m", name=N("n"), path=N("p")),
             "linked mesh": {"type": "linkedmesh", "parent": "mm"}, "linked mesh with path": {"type": "linkedmesh", "parent": "mm", "path": N("p"), "skin": N("x")},
             "linked mesh with name": {"type": "linkedmesh", "parent": "mm", "name": N("n")},
             "path": att("path", "pa"), "path with name": att("path", "pa", name=N("n")), "point": att("point", "po"), "bounding box": att("boundingbox", "bb"),
             "clipping": att("clipping", "cl", end=N("s1")), }
    heads = {"default folder": {}, "folder with slash": {"images": "./img/"}, "folder without slash": {"images": "img"}, "absolute folder": {"images": "/a/b"}, "no folder": {"images": ""}}

    def check(scales=None):
        def c(out):
            doc = out.args[0]
            sc = {out.host(k): v for k, v in scales.items()} if scales else None
            return images_match(out.ret(0), doc, "image references", sc) + images_match(out.ret(1), doc, "image references asked for again", sc)
        return c
    slots = [{"name": N("s1"), "bone": "root"}, {"name": N("s2"), "bone": "root"}]
    for k, o in kinds.items():
        for h, kw in heads.items():
            if h != "default folder" and k not in ("region, name from key", "mesh with path", "linked mesh with name"):
                continue
            yield Scenario("%s, %s" % (k, h), "drivers:imgs", [B.doc(slots=slots, skins=[{"name": "default", "attachments": {N("s1"): {N("k"): dict(o)}}}], head=B.header(**kw))], check())
    ks = list(kinds)
    r = random.Random(71)
    for q in range(40 if tier == "quick" else 400):
        sk = []
        for i in range(r.randint(1, 3)):
            m = {}
            for s in r.sample(["s1", "s2"], r.randint(1, 2)):
                m[N(s)] = {}
                for a in r.sample("abcd", r.randint(1, 3)):
                    o = dict(kinds[r.choice(ks)])
                    for kk in ("name", "path"):
                        if kk in o and o[kk] != "":
                            o[kk] = N(r.choice("abpqr"))
                    m[N(s)][N(a)] = o
            sk.append({"name": "default" if i == 0 else N("skin%d" % i), "attachments": m})
        if r.random() < .3:
            sk.append({"name": N("bare")})
        yield Scenario("several attachments %d" % q, "drivers:imgs", [B.doc(slots=slots, skins=sk, head=B.header(**heads[r.choice(list(heads))]))], check())
    c = count("atts")
    fk = fam("key", c, "k", nochars="[/")
    d = B.doc(slots=slots, skins=[{"name": "default", "attachments": {N("s1"): D((name("k0", "k", nochars="[/"), {"x": num("x")}), (fk, {"y": num("y")}, "all"))}}])

    def manycheck(out):
        g = out.ret(0)
        if isinstance(g, Unknown):
            return [("unk", "not known")]
        k0 = out.host(name("k0", "k", nochars="[/"))
        w = D((k0, {"path": mkcat(["./images/", k0])}), (fk, {"path": mkcat(["./images/", fk])}, "all"))
        return problems(compare(g, w, "image references"))
    yield Scenario("any number of regions", "drivers:imgs", [d], manycheck)
    # scale tags in names
    tags = [("slot", "s[scale:0.5]", "b", "c", 0.5), ("slot, blanks", "s [ scale : 2 ] x", "b", "c", 2.0), ("bone", "s", "b[scale:3]", "c", 3.0), ("parent bone", "s", "b", "c[scale:4]", 4.0),
            ("slot and bone", "s[scale:0.5]", "b[scale:3]", "c", 1.5), ("all", "s[scale:2]", "b[scale:3]", "c[scale:4]", 24.0), ("neutral", "s[scale:1]", "b", "c", None),
            ("cancelling", "s[scale:0.5]", "b[scale:2]", "c", None), ("integer", "s[scale:10]", "b", "c", 10.0)]
    for sid, s, b_, c_, v in tags:
        bs = [dict(ROOT), {"name": c_, "parent": "root"}, {"name": b_, "parent": c_}, {"name": "other[scale:7]", "parent": c_}]
        d = B.doc(bones=bs, slots=[{"name": s, "bone": b_}, {"name": "plain", "bone": "root"}],
                  skins=[{"name": "default", "attachments": {s: {N("k"): {"path": N("p")}, N("m"): mesh("m")}, "plain": {N("k2"): {"path": N("p2")}}}}])
        yield Scenario("scale tag in %s" % sid, "drivers:imgs", [d], check({N("p"): v, N("m"): v} if v else None))
    for s in ("s[scale:1][scale:2]", "s[size:2]"):
        d = B.doc(slots=[{"name": s, "bone": "root"}], skins=[{"name": "default", "attachments": {s: {N("k"): {}}}}])
        from p_load import must_raise
        yield Scenario("invalid tag in %s" % s, "drivers:imgs", [d], must_raise, may_raise=True)


# ---------------------------------------------------------------- image references after editing
@guard
def c22_check(out, doc, *rest):
    """exactly the images that the remaining document uses, each where it was"""
    got, im = norm(F.DOC, out.ret(0)), out.ret(1)
    if isinstance(got, Unknown) or hazy([[k for k in m] for sk in got.get("skins", []) if isinstance(sk, dict) for m in sk.get("attachments", {}).values()]):
        return [("unk", "document not known")]
    if "skins" not in got:
        got = dict(got, skins=[])
    d = {"skins": got["skins"], "skeleton": doc["skeleton"]}
    return images_match(im, d, "image references", scales_of(doc))


def scales_of(doc):
    """image -> scale that the tags in the names of its slots and their bones give (when they agree)"""
    bones = {b["name"]: b for b in doc.get("bones", []) if not isinstance(b["name"], Val)}

    def tag(n):
        import re
        m = None if isinstance(n, Val) else re.search(r"\[\s*scale\s*:([^\]]*)\]", n)
        return float(m.group(1)) if m else 1.0
    res = {}
    for sk in doc.get("skins", []):
        for sn, m in (sk.get("attachments") or {}).items():
            v = tag(sn)
            b = next((x.get("bone") for x in doc.get("slots", []) if x["name"] == sn), None)
            while b in bones:
                v, b = v * tag(b), bones[b].get("parent")
            if v != 1.0:
                for x in P.images_of({"skins": [{"attachments": {sn: m}}]}):
                    res[x] = v
    return res


def tagged_docs(tier):
    """scale tags in names of slots and bones; some of their images are not used"""
    N = Names()
    hide = {"attachment": [{"name": None}]}
    for i, (s1, s2, b1, b2) in enumerate((("s1[scale:2]", "s2[scale:2]", "b1", "b2"), ("s1[scale:0.5]", "s2", "b1[scale:3]", "b2"), ("s1", "s2", "b1[scale:0.25]", "b2[scale:4]"),
                                          ("s1[scale:1]", "s2[scale:0.5]", "b1[scale:2]", "b2[scale:2]"), ("s1", "s2 [ scale : 8 ]", "b1", "b2"))):
        bs = [dict(ROOT), {"name": b1, "parent": "root"}, {"name": b2, "parent": b1}, {"name": "c", "parent": "root"}]
        slots = [{"name": s1, "bone": b1, "attachment": N("a")}, {"name": s2, "bone": b2, "attachment": N("c")}, {"name": "plain", "bone": "c", "attachment": N("e")}]
        atts = {s1: {N("a"): att("region", "t1"), N("b"): att("mesh", "t2"), N("u"): {"path": N("im_u"), "x": num("ux")}},
                s2: {N("c"): att("regionpath", "t3"), N("d"): att("region", "t4")}, "plain": {N("e"): att("region", "t5"), N("f"): att("region", "t6")}}
        rot = {"bones": {b2: {"rotate": [{"angle": num("an")}]}}}
        for j, an in enumerate(({N("x"): rot}, {N("x"): dict(rot, slots={s1: hide})}, {N("x"): {"slots": {s2: {"attachment": [{"name": N("d"), "time": num("t")}]}}}, N("y"): {"slots": {s2: hide, "plain": hide}}})):
            yield "scale tags %d, animations %d" % (i, j), B.doc(bones=bs, slots=slots, skins=[{"name": "default", "attachments": atts}], animations=an)
            yield "scale tags %d, animations %d, two skins" % (i, j), B.doc(
                bones=bs, slots=slots, skins=[{"name": "default", "attachments": {s1: atts[s1], "plain": atts["plain"]}},
                                              {"name": N("skin"), "attachments": {s2: atts[s2], s1: {N("a"): {"path": N("im_v")}}}}], animations=an)


def c22(tier):
    n = 0
    for sid, d in tagged_docs(tier):
        yield Scenario("clean; " + sid, "drivers:clean_images", [d], c22_check)
        if len(d.get("skins", [])) > 1:
            for safe in (True, False):
                yield Scenario("erase a skin%s; %s" % (" safely" if safe else "", sid), "drivers:erase_skins", [d, [d.get("skins", [])[1]["name"]], safe], c22_check)
        if len(d.get("animations", {})) > 1:
            yield Scenario("erase an animation; " + sid, "drivers:erase_anims", [d, [list(d.get("animations", {}))[0]], True, False], c22_check)
    for sid, d in P.mixed_docs(tier):
        n += 1
        yield Scenario("clean; " + sid, "drivers:clean_images", [d], c22_check)
    for sid, d, N, r in skin_docs(tier):
        n += 1
        sk = [s["name"] for s in d.get("skins", [])]
        named = [x for x in sk if x != "default"]
        a = r.choice(named)
        for safe, req in ((True, [a]), (False, [a]), (n % 2 == 0, r.choice([named, sk[:1], []]))):
            yield Scenario("erase %s%s; %s" % ([sk.index(x) for x in req], " safely" if safe else "", sid), "drivers:erase_skins", [d, list(req), safe], c22_check)
        an = list(d.get("animations", {}))
        if len(an) > 1:
            yield Scenario("erase skins, an animation, clean; %s" % sid, "drivers:edit_twice", [d, [a], an[:1]], c22_check)
    for sid, d, sk, r in link_docs(tier):
        req = r.sample(sk, r.randint(1, len(sk) - 1))
        yield Scenario("erase %s safely; %s" % ([sk.index(x) for x in req], sid), "drivers:erase_skins", [d, list(req), True], c22_check)
    for sid, d in anim_docs(tier):
        n += 1
        an = list(d.get("animations", {}))
        if len(an) > 1:
            yield Scenario("erase %d animation%s; %s" % (n % len(an), " safely" if n % 4 == 0 else "", sid), "drivers:erase_anims", [d, [an[n % len(an)]], True, n % 4 == 0], c22_check)


# ---------------------------------------------------------------- sharing
def sample_docs(tier):
    full = {}
    for o in B.KINDS:
        full["every attribute of a %s" % o.kind] = B.place(o.kind, dict(B.full(o), **({"volume": num("vol"), "audio": "x"} if False else {})))
        full["defaults of a %s" % o.kind] = B.place(o.kind, B.NEEDED.get(o.kind, {}) and {k: v for k, v in B.one(o, "", True).items()} or {k: v for k, v in o.attrs.items() if False})
    return full


def raw(x):
    return x


def addresses(out, v):
    return {a: via for a, via in out.reach([v]).items() if mutable(out, a)}


def mutable(out, a):
    o = out.st.get(a)
    return not (isinstance(o, SetO) and o.frozen) and (isinstance(o, (DictO, ListO, SetO)) or isinstance(o, Inst))


def shared(out, pairs, tables=()):
    """mutable objects that both of a pair can reach; two editors may share tables that no operation changes"""
    r = []
    for (what1, v1), (what2, v2) in pairs:
        a1, a2 = addresses(out, v1), addresses(out, v2)
        for a in a1:
            if a in a2:
                o = out.st.get(a)
                if a in tables and "editor" in what1 and "editor" in what2:
                    continue
                t = "%s and %s share the object created at %s" % (what1, what2, out.I_site(a) or "the input document")
                r.append(("unk", t) if getattr(o, "summ", False) else t)
                break
    return r


def class_tables(out):
    """mutable objects held by classes and modules before the run"""
    todo = []
    for a, o in out.pre.items():
        if isinstance(o, ClsO):
            for v in o.attrs.values():
                refs_in(v, todo)
    seen = set()
    while todo:
        a = todo.pop()
        if a in seen or a not in out.pre:
            continue
        o = out.pre[a]
        if isinstance(o, (Frame, ClsO)):
            continue
        seen.add(a)
        if isinstance(o, Inst):
            for v in o.attrs.values():
                refs_in(v, todo)
        else:
            todo += obj_refs(o)
    return seen


def input_untouched(out, i=0, what="the document passed in"):
    return [p if isinstance(p, tuple) else "%s was changed: %s" % (what, p) for p in problems(compare(out.snap(out.argvals[i]), out.args[i], what))]


def tables_untouched(out, tables):
    r = []
    for a in tables:
        x, y = out.pre[a], out.st.get(a)
        if x is not y and not same_obj(x, y):
            r.append("the table created at %s, shared by all objects of a class, was changed" % out.I_site(a))
    return r


def same_obj(x, y):
    if type(x) is not type(y):
        return False
    try:
        if isinstance(x, DictO):
            return list(x.items) == list(y.items)
        if isinstance(x, ListO):
            return list(x.segs) == list(y.segs)
        if isinstance(x, SetO):
            return list(x.items) == list(y.items)
        if isinstance(x, Inst):
            return x.attrs == y.attrs
    except Exception:
        return True
    return True


def tables_unreachable(out, tables, handed):
    r = []
    for what, v in handed:
        for a in addresses(out, v):
            o = out.st.get(a)
            if a in tables and isinstance(o, (DictO, ListO, SetO)):
                r.append("%s contains the table created at %s that all objects of a class share" % (what, out.I_site(a)))
                break
    return r


def c04_two(out):
    a, b, x, y, z = [out.part(i) for i in range(5)]
    docv, other = out.argvals[0], out.argvals[1]
    t = class_tables(out)
    E1, E2, J1, J2, J3, IN1, IN2 = ("an editor", a), ("another editor", b), ("saved data", x), ("data saved again", y), ("data saved by the other editor", z), ("its input", docv), ("the other input", other)
    pairs = [(E1, E2), (E1, IN1), (E2, IN2), (J1, E1), (J1, J2), (J1, IN1), (J3, E2), (J3, J1), (E1, IN2), (J2, E1)]
    return shared(out, pairs, t) + input_untouched(out) + tables_untouched(out, t) + tables_unreachable(out, t, [J1, J3])


@guard
def c04_after(out, doc, op, names, sx):
    a, b, x, x2, zb, im, imb, r, now = [out.part(i) for i in range(9)]
    t = class_tables(out)
    E1, E2, J = ("an editor", a), ("another editor on the same document", b), ("the data saved before %s" % op, x)
    N = ("the data it saved after %s" % op, now)
    res = shared(out, [(E1, E2), (E1, J), (E1, ("its input", out.argvals[0])), (N, E1), (N, J), (N, ("its input", out.argvals[0]))], t)
    if op.startswith("erase") and "animations" in op:
        res += shared(out, [(("the data returned by %s" % op, r), E1), (("the data returned by %s" % op, r), N)])
    if op == "images":
        res += shared(out, [(("the image references returned", r), E1)])
    res += input_untouched(out) + tables_untouched(out, t) + tables_unreachable(out, t, [J, N])
    for what, v in ((J[0], x), ("the data another editor saves after %s" % op, zb)):
        res += [p if isinstance(p, tuple) else "%s: %s" % (what, p) for p in same(out, out.snap(v), ordered(doc))]
    res += images_match(out.snap(imb), doc, "image references of the other editor") + images_match(out.snap(im), doc, "image references handed out before")
    return res


def c04(tier):
    docs = sample_docs(tier)
    for sid, d in docs.items():
        yield Scenario("two editors; " + sid, "drivers:two_editors", [d, d if "every" in sid else B.place("bone", B.full(F.BONE))], c04_two)
    import p_load
    for sid, d in p_load.families().items():
        yield Scenario("two editors; any number of " + sid, "drivers:two_editors", [d, d], c04_two)
    for sid, d in p_load.orders().items():
        yield Scenario("two editors; order of " + sid, "drivers:two_editors", [d, d], c04_two)
    sx = core_num("sx", (0, 1))
    OPS = ["clean", "erase animations", "erase animations safely", "erase skins", "erase skins safely", "scale", "images"]
    n = 0
    jobs = [(s, d) for s, d in P.whole_docs()] + [(s, d) for s, d, N, r in skin_docs(tier)][: (10 if tier == "quick" else 200)]
    for sid, d in jobs:
        for op in OPS:
            n += 1
            names = []
            if op.startswith("erase skins"):
                names = [s["name"] for s in d.get("skins", []) if s["name"] != "default"][:1]
            elif "animations" in op:
                names = list(d.get("animations", {}))
                names = names[:max(0, len(names) - 1)] if n % 3 == 0 else names[1:2]
            if tier == "quick" and n % 2:
                continue
            yield Scenario("%s; %s" % (op, sid), "drivers:before_and_after", [d, op, names, sx], c04_after)
    for sid, d, sk, r in link_docs(tier):
        if r.random() < .25:
            yield Scenario("erase skins safely; " + sid, "drivers:before_and_after", [d, "erase skins safely", r.sample(sk, 1), sx], c04_after)


# ---------------------------------------------------------------- files
def norm_path(p):
    import lib
    return lib.normpath(lib._pathstr(p))


def dumps_of(out):
    r = []
    for e in out.st.eff:
        if e[0] == "dump":
            r.append((norm_path(e[1]), e[2]))
        elif e[0] == "write":
            v = e[2]
            if isinstance(v, Term) and v.op == "json":
                r.append((norm_path(e[1]), v.args[0]))
            else:
                r.append((norm_path(e[1]), None))
    return r


def c27_check(part, dirname):
    """exactly one file is opened for writing, the requested one, and it receives the data"""
    def check(out):
        path = norm_path(out.I and (out._args[1] if isinstance(out._args[1], Val) else C(out._args[1])))
        opened = [(norm_path(e[1]), e[2]) for e in out.st.eff if e[0] == "open"]
        r = []
        if [p for p, m in opened] != [path]:
            r.append(unk_if("the files opened for writing are %r instead of %r" % (opened, path), [p for p, m in opened]))
        elif not opened[0][1].startswith(("w", "x")) or opened[0][1].startswith("x"):
            r.append("the file is opened in mode %r" % opened[0][1])
        made = [norm_path(e[1]) for e in out.st.eff if e[0] == "makedirs"]
        want = [] if dirname is None else ([norm_path(dirname)] if (("isdir", norm_path(dirname)) in out.st.facts) else [])
        for m in made:
            if m not in want:
                r.append(unk_if("the directory %r is created" % m, [m]))
        if len(made) > 1 and made.count(made[0]) > 1:
            r.append("directories are created repeatedly: %r" % made)
        for e in out.st.eff:
            if e[0] not in ("open", "makedirs", "dump", "write", "close", "read", "json.load"):
                r.append(("unk", "effect %r" % (e,)))
        d = dumps_of(out)
        if len(d) != 1 or d[0][0] != path or d[0][1] is None:
            r.append(("unk", "what is written is not known: %r" % (d,)) if any(x[1] is None for x in d) else "data is written to %r" % ([x[0] for x in d],))
            return r
        got = out.snap(d[0][1])
        if part == 0:
            r += problems(compare(norm(F.DOC, got), norm(F.DOC, out.args[0]), "saved document")) + problems(compare(got, out.ret(0), "saved document against the data of the editor"))
        else:
            r += problems(compare(got, out.ret(1), "saved image references")) + images_match(got, out.args[0], "saved image references")
        return r
    return check


def unk_if(t, xs):
    return ("unk", t) if any(hazy(x) for x in xs) else t


def c27(tier):
    f = name("file", nochars="[/")
    dd = name("dir", nochars="[/")
    anyp = name("path", nochars="[")
    paths = {"bare file name": (mkcat([f, ".json"]), None), "file in a directory": (mkcat([dd, "/", f]), dd), "file in nested directories": (mkcat(["a/", dd, "/", f, ".json"]), mkcat(["a/", dd])),
             "absolute path": (mkcat(["/", dd, "/", f]), mkcat(["/", dd])), "constant bare name": ("out.json", None), "constant path": ("x/y/out.json", C("x/y")),
             "relative to the current directory": (mkcat(["./", f]), None), "file below the root": (mkcat(["/", f]), None)}
    for x in ("hero.v2", "hero", "hero.skel.bytes", "a/b.c/hero", "a.json/b/hero.v2.txt", "../up/hero.JSON", "/abs/x.y/hero.json.bak", "a/../b/hero", " sp ace/h ero "):
        paths["constant path %r" % x] = (x, C(posixpath.dirname(x)) if posixpath.dirname(x) else None)
    paths["unknown file with an unusual extension"] = (mkcat([dd, "/", f, ".v2"]), dd)
    paths["unknown file in a directory with a dot"] = (mkcat([dd, ".d/", f]), mkcat([dd, ".d"]))
    doc = [d for s, d in P.fixed_docs() if s == "four skins, slot shown"][0]
    docs = {"four skins": doc, "every attribute of a bone": B.place("bone", B.full(F.BONE)), "every attribute of a mesh": B.place("mesh", B.full(F.MESH))}
    for sid, (p, d) in paths.items():
        for ds, doc in docs.items():
            if ds != "four skins" and sid not in ("constant path", "constant bare name"):
                continue
            yield Scenario("save %s; %s" % (sid, ds), "drivers:save", [doc, p], c27_check(0, d))
            yield Scenario("save images %s; %s" % (sid, ds), "drivers:save_images", [doc, p], c27_check(1, d))


def only_read(out, path):
    """the file is read, no other file is, and nothing is written"""
    r = []
    for e in out.st.eff:
        if e[0] in ("read", "json.load"):
            p = norm_path(e[1])
            if p != path:
                r.append(unk_if("the file %r is read instead of %r" % (p, path), [p]))
        elif e[0] in ("open", "dump", "write", "makedirs"):
            r.append("loading has the effect %r" % (e[0],))
        elif e[0] != "close":
            r.append(("unk", "effect %r" % (e,)))
    if not any(e[0] == "read" for e in out.st.eff):
        r.append("the file is not read")
    return r


def the_path(out):
    return norm_path(out._args[1] if isinstance(out._args[1], Val) else C(out._args[1]))


def c32_load(out):
    r = only_read(out, the_path(out))
    r += problems(compare(norm(F.DOC, out.ret(0)), norm(F.DOC, out.args[0]), "document loaded from a file")) + images_match(out.ret(1), out.args[0], "its image references", scales_of(out.args[0]))
    if out.ret(3) is False:
        r.append("what is returned is not an editor")
    return r


def c32_pair(reading):
    def check(out):
        r = only_read(out, the_path(out)) if reading else []
        for i, what in ((0, "document"), (1, "image references")):
            r += problems(compare(out.ret(i), out.ret(i + 2), what + (" of the editor made from a file" if reading else " loaded from the saved file"), unordered=False))
        return r
    return check


def c32_graph(out):
    r = only_read(out, the_path(out))
    a, b, t, nodes, edges = [out.ret(i) for i in range(5)]
    r += problems(compare(a, b, "graph loaded from a file")) + problems(compare(t, a, "text of the graph")) + problems(compare(nodes[0], nodes[1], "nodes of the graph"))
    r += problems(compare(edges[0], edges[1], "edges of the graph"))
    want = {k: out.args[0].get(k, []) for k in ("bones", "slots", "ik")}
    return r + problems(compare(a, want, "graph loaded from a file"))


def c32_types(out):
    r = ["a class or factory of the wrong type is accepted (case %d)" % i for i, x in enumerate(out.ret(0)) if x is True]
    r += [("unk", "case %d" % i) for i, x in enumerate(out.ret(0)) if not isinstance(x, bool)]
    want = {k: out.args[0].get(k, []) for k in ("bones", "slots", "ik")}
    return r + problems(compare(out.ret(1), want, "graph"))


def file_names():
    f = name("file", nochars="[/")
    dd = name("dir", nochars="[/")
    return {"bare file name": mkcat([f, ".json"]), "file in a directory": mkcat([dd, "/", f]), "absolute path": mkcat(["/", dd, "/", f, ".json"]), "any path": name("path", nochars="["),
            "constant path 'x/y/in.json'": "x/y/in.json", "constant path 'hero'": "hero", "constant path '../up/hero.v2.JSON'": "../up/hero.v2.JSON"}


def some_docs(tier, k):
    """documents with everything in them, and random ones"""
    N, r = Names(), random.Random(77)
    for q in range(2):
        yield "several of everything %d" % q, several(N, r, q)
    jobs = list(P.whole_docs()) + [(s, d) for s, d, N, r in skin_docs(tier)] + [("combination %d" % s, P.random_doc(s)) for s in range(300, 330 if tier == "quick" else 600)]
    n = 0
    for sid, d in jobs:
        n += 1
        if n % k == 0 or tier != "quick":
            yield sid, d


def names_for(op, d, n):
    if op.startswith("erase skins"):
        x = [s["name"] for s in d.get("skins", []) if s["name"] != "default"]
        return x[n % max(1, len(x)):][:1 + n % 2]
    if "animations" in op:
        x = list(d.get("animations", {}))
        return x[1:2] if n % 2 else x[:max(0, len(x) - 1)]
    return []


def c32(tier):
    import p_load
    sx = core_num("sx", (0, 1))
    OPS = ["clean", "erase animations", "erase animations safely", "erase skins", "erase skins safely", "scale"]
    paths = file_names()
    main = [d for s, d in P.fixed_docs() if s == "four skins, slot shown"][0]
    for ps, p in paths.items():
        yield Scenario("load %s" % ps, "drivers:load_file", [main, p], c32_load)
        yield Scenario("load %s again after it changed" % ps, "drivers:load_twice", [main, p, B.place("mesh", B.full(F.MESH))], c32_load)
        yield Scenario("load a graph from %s" % ps, "drivers:load_graph_file", [main, p], c32_graph)
        if ps != "any path":
            yield Scenario("save and load %s" % ps, "drivers:save_and_load", [main, p, "nothing", [], sx], c32_pair(False))
    yield Scenario("wrong parsers and factories", "drivers:graph_parser_types", [main, "x.json"], c32_types)
    p = paths["file in a directory"]
    for o in B.KINDS:
        yield Scenario("load every attribute of a %s" % o.kind, "drivers:load_file", [B.place(o.kind, B.full(o)), p], c32_load)
        yield Scenario("save and load every attribute of a %s" % o.kind, "drivers:save_and_load", [B.place(o.kind, B.full(o)), p, "nothing", [], sx], c32_pair(False))
        if o in (F.BONE, F.SLOT, F.IK, F.REGION, F.MESH):
            yield Scenario("load a graph with every attribute of a %s" % o.kind, "drivers:load_graph_file", [B.place(o.kind, B.full(o)), p], c32_graph)
    for sid, d in list(p_load.families().items()):
        yield Scenario("load any number of " + sid, "drivers:load_file", [d, p], c32_load)
    for sid, d in p_load.orders().items():
        yield Scenario("load order of " + sid, "drivers:load_file", [d, p], c32_load)
        yield Scenario("save and load order of " + sid, "drivers:save_and_load", [d, p, "nothing", [], sx], c32_pair(False))
    n = 0
    for sid, d in some_docs(tier, 6):
        for op in OPS:
            n += 1
            if tier == "quick" and n % 3:
                continue
            yield Scenario("load, %s; %s" % (op, sid), "drivers:load_file_edit", [d, p, op, names_for(op, d, n), sx], c32_pair(True))
            yield Scenario("%s, save, load; %s" % (op, sid), "drivers:save_and_load", [d, p, op, names_for(op, d, n), sx], c32_pair(False))


# ---------------------------------------------------------------- histories
def as_set(x):
    """a sequence whose order does not matter"""
    if isinstance(x, (list, tuple, set, frozenset)):
        return list(x)
    return None


def reports_agree(a, b, what):
    """two results of one operation, lists of names compared without their order"""
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return [("unk", what + " not known")]
    if isinstance(a, SInst) and isinstance(b, SInst):
        return [p for k in a.attrs for p in reports_agree(a.attrs[k], b.attrs.get(k), "%s.%s" % (what, k))]
    la, lb = as_set(a), as_set(b)
    if la is not None and lb is not None:
        if all(not isinstance(x, (list, tuple, set, frozenset, dict)) for x in la + lb):
            return names_match(la, lb, what, once=False)
        if len(la) == len(lb):
            return [p for i in range(len(la)) for p in reports_agree(la[i], lb[i], "%s[%d]" % (what, i))]
    if isinstance(a, dict) and isinstance(b, dict):
        return problems(compare(a, b, what))
    return problems(compare(a, b, what))


def names_match(got, want, what, once=True):
    r = []
    if hazy(got) or hazy(want):
        return [("unk", "%s not known: %r" % (what, got))]
    for x in want:
        if x not in got:
            r.append("%s does not name %s" % (what, brief(x)))
    for x in got:
        if x not in want:
            r.append("%s names %s" % (what, brief(x)))
        elif once and got.count(x) > 1:
            r.append("%s names %s more than once" % (what, brief(x)))
    return r


def c33_check(out):
    r = []
    for i, what in ((0, "document"), (1, "image references")):
        r += problems(compare(out.ret(i), out.ret(i + 3), what + " (editor with a history, new editor)"))
    r += reports_agree(out.ret(2), out.ret(5), "what the operation returns (editor with a history, new editor)")
    if isinstance(out.v, Tup) and len(out.v.segs) > 6:
        r += ["a request for something unknown is accepted"] if any(x is True for x in out.ret(6)) else []
    return r


def history_docs(tier):
    N, r = Names(), random.Random(31)
    for q in range(2 if tier == "quick" else 10):
        yield "several of everything %d" % q, several(N, r, q)
    jobs = list(P.whole_docs())[:: 3 if tier == "quick" else 1] + [(s, d) for s, d, N, r in skin_docs(tier)][:: 3 if tier == "quick" else 2]
    jobs += [(s, d) for s, d in tagged_docs(tier)][:: 7 if tier == "quick" else 3]
    jobs += [("combination %d" % s, P.random_doc(s)) for s in range(400, 412 if tier == "quick" else 520)]
    yield from jobs


def scaled_again():
    """bones of every kind of transform, under one factor after the other"""
    root = dict(B.ROOTBONE)
    for t in ("normal", "noScale", "noScaleOrReflection", "onlyTranslation", "noRotationOrReflection"):
        yield "bones that are %s" % t, B.doc(bones=[root, {"name": name("b0", "b", ne=("root",)), "parent": "root", "transform": t}, {"name": name("b1", "b", ne=("root",)), "parent": name("b0", "b", ne=("root",)), "transform": "normal"}])
    yield "a root with a scale", B.doc(bones=[dict(root, scaleX=0.25, scaleY=3), {"name": name("b0", "b", ne=("root",)), "parent": "root", "transform": "noScale", "scaleX": 0.5}])


def c33(tier):
    sx = core_num("sx", (0, 1))
    OPS = ["clean", "erase animations", "erase animations safely", "erase skins", "erase skins safely", "scale", "images"]
    pairs = [(a, b) for a in OPS[:6] for b in OPS]
    n = 0
    r = random.Random(33)
    for sid, d in history_docs(tier):
        for a, b in pairs if tier != "quick" and n < 1500 else r.sample(pairs, 3):
            n += 1
            steps = [a, b] if n % 3 else [a, r.choice(OPS[:6]), b]
            if steps.count("scale") > 1:  # products of several unknown factors that happen to be one: see C20
                i = steps.index("scale")
                steps[i] = "scale by one"
                if steps.count("scale") > 1:
                    steps[steps.index("scale")] = "scale by one"
            todo = {"skins": r.sample([s["name"] for s in d.get("skins", []) if s["name"] != "default"], max(0, len(d.get("skins", [])) - 1)), "animations": list(d.get("animations", {}))}
            plan = []
            for i, op in enumerate(steps):
                ns = []
                if op.startswith("erase skins"):
                    ns, todo["skins"] = todo["skins"][:1], todo["skins"][1:]
                elif "animations" in op:
                    ns, todo["animations"] = todo["animations"][:1], todo["animations"][1:]
                plan.append((op, ns))
            yield Scenario("%s; %s" % (", then ".join(steps), sid), "drivers:fresh_editor", [d, [list(x) for x in plan[:-1]], plan[-1][0], plan[-1][1], sx], c33_check)
        if n % 2 == 0:
            op = r.choice(OPS)
            ns = names_for(op, d, n)
            an = list(d.get("animations", {}))[:1]
            sk = [s["name"] for s in d.get("skins", [])][:1]
            yield Scenario("rejected requests, then %s; %s" % (op, sid), "drivers:rejected_then",
                           [d, [["skins", sk + ["no such skin"]], ["animations", an + ["no such animation"]], ["skins", ["no such skin"]]], op, ns, sx], c33_check)
        sk = [s["name"] for s in d.get("skins", []) if s["name"] != "default"]
        an = list(d.get("animations", {}))
        if sk or an:
            first = [[("erase skins", "erase skins safely")[n % 2], sk[:1]]] * bool(sk) + [[("erase animations", "erase animations safely")[n // 2 % 2], an[:1]]] * bool(an)
            r.shuffle(first)
            wrong = [["skins", sk[:1]], ["skins safely", sk[1:2] + sk[:1]], ["skins", sk[:1]]] * bool(sk) + [["animations", an[:1]], ["animations", an[1:2] + an[:1]], ["animations", an[:1]]] * bool(an)
            yield Scenario("%s, and again; %s" % (", then ".join(o for o, _ in first), sid), "drivers:fresh_requests", [d, first, wrong, sx], c33_check)
    for sid, d in scaled_again():
        for steps in (["scale by one", "scale"], ["scale by two", "scale"], ["scale", "scale by two"], ["scale by one", "clean", "scale by two"], ["scale", "clean", "scale by one"], ["scale by two", "images", "scale by two"]):
            if "scale" in steps and "scale by two" in steps and "with a scale" in sid:
                continue  # products again
            yield Scenario("%s; %s" % (", then ".join(steps), sid), "drivers:fresh_editor", [d, [[x, []] for x in steps[:-1]], steps[-1], [], sx], c33_check)


# ---------------------------------------------------------------- reports
@guard
def c34_check(out, doc, op, names):
    rest = doc
    if op.startswith("erase animations"):
        rest = without_animations(doc, names)
    elif op.startswith("erase skins"):
        rest = without_skins(doc, names)
    gone, gone_att = ([], []) if op.endswith("safely") else R.removals(rest)
    r = []
    for i, want, what in ((2, gone, "the report of removed slots"), (3, gone_att, "the report of removed attachments")):
        got = as_set(out.ret(i))
        r += names_match(got, want, what) if got is not None else [("unk", what + " not known")]
    if op.startswith("erase skins"):
        got = as_set(out.ret(4))
        left = P.images_of(rest)
        want = [x for x in P.images_of({"skins": [s for s in doc.get("skins", []) if s["name"] in names]}) if x not in left]
        r += names_match(got, want, "the report of removed images", once=False) if got is not None else [("unk", "images not known")]
    # and the report tells what happened to the document
    res = norm(F.DOC, out.ret(0))
    if not isinstance(res, Unknown) and not hazy([s.get("name") for s in res.get("slots", [])]):
        have = [s.get("name") for s in res.get("slots", [])]
        got = as_set(out.ret(2))
        if got is not None:
            r += names_match(got, [s["name"] for s in doc.get("slots", []) if s["name"] not in have], "the report of removed slots (against the document)")
    return r


def c34(tier):
    OPS = ["clean", "erase animations", "erase animations safely", "erase skins", "erase skins safely"]
    n = 0
    N, r = Names(), random.Random(34)
    jobs = [("several of everything %d" % q, several(N, r, q)) for q in range(2)] + list(P.whole_docs()) + [(s, d) for s, d, N, r in skin_docs(tier)]
    jobs += list(anim_docs(tier)) + [(s, d) for s, d in tagged_docs(tier)][::5] + [("combination %d" % s, P.random_doc(s)) for s in range(500, 525 if tier == "quick" else 900)]
    for sid, d in jobs:
        for op in OPS:
            n += 1
            if tier == "quick" and n % 3 and "several" not in sid:
                continue
            yield Scenario("%s; %s" % (op, sid), "drivers:report", [d, op, names_for(op, d, n)], c34_check)
    for sid, d in P.focus_docs(tier):
        n += 1
        if n % (6 if tier == "quick" else 2) == 0:
            yield Scenario("clean; %s" % sid, "drivers:report", [d, "clean", []], c34_check)
    for sid, d, sk, r in link_docs(tier):
        n += 1
        if n % 4 == 0 or tier != "quick":
            op = OPS[3 + n % 2]
            yield Scenario("%s; %s" % (op, sid), "drivers:report", [d, op, r.sample(sk, r.randint(1, len(sk) - 1))], c34_check)


# ---------------------------------------------------------------- determinism
def unordered(x, path, out):
    if isinstance(x, dict):
        if getattr(x, "unord", False) and len(x) + len(getattr(x, "many", ())) + len(getattr(x, "fuzzy", ())) > 1:
            out.append("%s: the order of the entries depends on the iteration order of a set (created at %s)" % (path or "result", x.site))
        for k, v in x.items():
            unordered(k, path, out)
            unordered(v, "%s[%s]" % (path, brief(k, 40)), out)
        for m in getattr(x, "many", ()):
            unordered(m.v, "%s[*]" % path, out)
    elif isinstance(x, (list, tuple)):
        if getattr(x, "unord", False) and len(x) > 1:
            out.append("%s: the order of the elements depends on the iteration order of a set (created at %s)" % (path or "result", getattr(x, "site", "")))
        for i, v in enumerate(x):
            unordered(v.v if isinstance(v, Rest) else v, "%s[%d]" % (path, i), out)
    elif isinstance(x, (set, frozenset)):
        out.append("%s: holds a set" % path)
    return out


def tainted(x):
    """does a value come from a source that differs between runs?"""
    if isinstance(x, Top):
        return "nondet" in repr(getattr(x, "why", ""))
    if isinstance(x, (Term,)):
        return x.op in ("hash", "id", "set.pop", "nondet") or any(tainted(a) for a in x.args)
    if isinstance(x, Cat):
        return any(tainted(a) for a in x.parts)
    return False


def leaves(x):
    if isinstance(x, dict):
        for k, v in x.items():
            yield k
            yield from leaves(v)
        for m in getattr(x, "many", ()):
            yield m.key
            yield from leaves(m.v)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from leaves(v.v if isinstance(v, Rest) else v)
    else:
        yield x


def orders_match(a, b, path):
    """same order of the entries of dictionaries"""
    if isinstance(a, dict) and isinstance(b, dict):
        if list(a) != list(b):
            return ["%s: the order of the entries differs (%s, %s)" % (path, brief(list(b)), brief(list(a)))] if set(map(repr, a)) == set(map(repr, b)) else []
        return [p for k in a for p in orders_match(a[k], b[k], "%s[%s]" % (path, brief(k, 40)))]
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        return [p for i in range(len(a)) for p in orders_match(a[i], b[i], "%s[%d]" % (path, i))]
    return []


def c28_check(out):
    r = []
    for i, what in ((0, "document"), (1, "image references")):
        g = out.ret(i)
        if isinstance(g, Unknown):
            return [("unk", what + " not known")]
        r += unordered(g, what, [])
        for x in leaves(g):
            if isinstance(x, Unknown):
                r.append(("unk", what + ": " + x.why))
            elif tainted(x):
                r.append("%s contains a value that differs between runs: %r" % (what, x))
        if not r:
            r += [p if isinstance(p, tuple) else p + " (two runs that iterate sets in different orders)" for p in problems(compare(out.ret(i + 2), g, what)) + orders_match(out.ret(i + 2), g, what)]
    return r


def several(N, r, q):
    """a document with several elements in every collection whose order can be seen"""
    bs = [dict(ROOT)] + [{"name": N("b%d" % i), "parent": "root" if i < 2 else N("b%d" % (i - 2)), "transform": r.choice([None, "noScale"]) or "normal"} for i in range(4)]
    ss = [N("s%d" % i) for i in range(4)]
    slots = [{"name": s, "bone": bs[i]["name"], "attachment": N("a%d" % i)} for i, s in enumerate(ss)]
    skins = [{"name": "default" if k == 0 else N("skin%d" % k),
              "attachments": {s: {N("a%d" % i): att("region", "k%d_%d" % (k, i)), N("c%d" % i): att("mesh", "c%d_%d" % (k, i))} for i, s in enumerate(ss) if k == 0 or (i + k) % 2}} for k in range(4)]
    an = {}
    for k in range(4):
        sl = {s: {"color": [{"time": num("ct%d%d" % (k, i)), "color": "ff00ff00"}]} for i, s in enumerate(ss) if i != k}
        sl[ss[k]] = {"attachment": [{"name": None, "time": num("at%d" % k)}]}
        an[N("an%d" % k)] = {"slots": sl, "bones": {b["name"]: {"rotate": [{"angle": num("r%d%d" % (k, j))}]} for j, b in enumerate(bs) if (j + k) % 3},
                             "events": [{"name": N("e%d" % (k % 2)), "time": num("et%d" % k)}],
                             "drawOrder": [{"time": num("dt%d" % k), "offsets": [{"slot": ss[2], "offset": -1 - k % 2}, {"slot": ss[0], "offset": 1 + k % 2}]}, {"time": num("du%d" % k)}]}
    kw = {"ik": [{"name": N("ik%d" % i), "bones": [bs[1]["name"], bs[2]["name"]][: i + 1], "target": bs[3]["name"], "order": i} for i in range(2)]} if q % 2 else {}
    return B.doc(bones=bs, slots=slots, skins=skins, animations=an, events={N("e0"): {"int": num("ev0")}, N("e1"): {"int": num("ev1")}}, **kw)


def c28(tier):
    sx = core_num("sx", (0, 1))
    OPS = ["nothing", "clean", "erase animations", "erase animations safely", "erase skins", "erase skins safely", "scale"]
    jobs = list(P.whole_docs()) + [(s, d) for s, d, N, r in skin_docs(tier)] + [("combination %d" % s, P.random_doc(s)) for s in range(200, 230 if tier == "quick" else 700)]
    n = 0
    for sid, d in jobs:
        for op in OPS:
            n += 1
            if tier == "quick" and n % 4 not in (0,):
                continue
            names = []
            if op.startswith("erase skins"):
                names = [s["name"] for s in d.get("skins", []) if s["name"] != "default"][:2]
            elif "animations" in op:
                names = list(d.get("animations", {}))[: max(0, len(d.get("animations", {})) - 1)]
            yield Scenario("%s; %s" % (op, sid), "drivers:same_twice", [d, op, names, sx], c28_check)
    N, r = Names(), random.Random(29)
    for q in range(2 if tier == "quick" else 12):
        d = several(N, r, q)
        for op in OPS:
            names = [s["name"] for s in d.get("skins", [])][1:3] if "skins" in op else list(d.get("animations", {}))[1:2] if "animations" in op else []
            yield Scenario("%s; several of everything %d" % (op, q), "drivers:same_twice", [d, op, names, sx], c28_check)
    import p_load
    for sid, d in p_load.orders().items():
        for op in ("nothing", "clean"):
            if op == "clean" and sid == "draw order keys":
                continue  # cleaning with unknown draw order offsets: see the documents with several of everything
            if op == "clean" and not d.get("animations"):
                d = dict(d, animations={"an": {}})
            yield Scenario("%s; order of %s" % (op, sid), "drivers:same_twice", [d, op, [], sx], c28_check)


from p_clean import core_num  # noqa: E402
