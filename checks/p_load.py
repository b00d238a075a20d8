"""C01, C02, C03: what loading and saving keeps."""
from base import *  # noqa
import base as B
import fmt38 as F
import p_clean

LOAD = "drivers:load_save"


def attrs(o):
    return [k for k in o.attrs if isinstance(o.attrs[k], tuple) and o.attrs[k][0] not in F.ATT.table]


def c01(tier):
    for o in B.KINDS:
        yield Scenario("all attributes of a %s" % o.kind, LOAD, [B.place(o.kind, B.full(o))], B.same_document())
        for k in attrs(o):
            yield Scenario("%s of a %s" % (k, o.kind), LOAD, [B.place(o.kind, B.one(o, k, True))], B.same_document())
    for sid, d in families().items():
        yield Scenario("any number of " + sid, LOAD, [d], B.same_document())
    for sid, d in orders().items():
        yield Scenario("order of " + sid, LOAD, [d], B.same_document())
    for sid, d in p_clean.sparse_docs():
        yield Scenario(sid, LOAD, [d], B.same_document())


def some(nm, mk):
    """[first, any number more, last]"""
    c = count(nm)
    return [mk("first_" + nm, lambda n: name(n)), Rest(mk("more_" + nm, lambda n: fam(n, c)), c), mk("last_" + nm, lambda n: name(n))]


def famdict(nm, mk):
    c = count(nm)
    k = fam(nm + "_key", c, group=nm)
    return D((name(nm + "_first", group=nm), mk("first_" + nm, None)), (k, mk("more_" + nm, c), "all"))


def leafs(obj, nm, c):
    """unknown attribute values; for a family member when c is a count"""
    r = {}
    for k in attrs(obj):
        t, d = obj.attrs[k]
        if t == "list":
            continue
        v = F.value(t, nm + k, (d,) if d is not F.NODEF and not isinstance(d, bool) else ())
        if isinstance(d, bool):
            r[k] = not d
            continue
        if c is not None and isinstance(v, Sym):
            v = Sym(v.name, v.types, v.truth, True, None, v.ne, v.nochars, own=c)
        r[k] = v
    return r


def keys(nm, obj):
    c = count(nm)
    return [leafs(obj, nm + "0", None), Rest(leafs(obj, nm + "r", c), c), leafs(obj, nm + "1", None)]


def families():
    r = {}
    bones = [dict(B.ROOTBONE), {"name": "b1", "parent": "root"}]
    slots = [{"name": "s1", "bone": "b1"}]
    c = count("slots")
    r["slots"] = B.doc(slots=[{"name": name("s0", "slots"), "bone": "root"}, Rest(dict(leafs(F.SLOT, "sl", c), name=fam("sr", c, "slots"), bone="root", attachment=None), c),
                              {"name": name("s9", "slots"), "bone": "root"}])
    for sid, obj, wrap in [
            ("attachment keys", F.A_ATT, lambda l: {"slots": {"s1": {"attachment": l}}}),
            ("color keys", F.A_COL, lambda l: {"slots": {"s1": {"color": l}}}),
            ("twoColor keys", F.A_COL2, lambda l: {"slots": {"s1": {"twoColor": l}}}),
            ("rotate keys", F.A_ROT, lambda l: {"bones": {"b1": {"rotate": l}}}),
            ("translate keys", F.A_TRA, lambda l: {"bones": {"b1": {"translate": l}}}),
            ("scale keys", F.A_SCA, lambda l: {"bones": {"b1": {"scale": l}}}),
            ("shear keys", F.A_SHE, lambda l: {"bones": {"b1": {"shear": l}}}),
            ("ik keys", F.A_IK, lambda l: {"ik": {"i1": l}}),
            ("transform keys", F.A_TRF, lambda l: {"transform": {"t1": l}}),
            ("path position keys", F.A_POS, lambda l: {"path": {"p1": {"position": l}}}),
            ("deform keys", F.A_DEF, lambda l: {"deform": {"default": {"s1": {"a1": l}}}}),
            ("event keys", F.A_EVT, lambda l: {"events": l})]:
        r[sid] = B.doc(bones=bones, slots=slots, animations={"anim": wrap(keys("k", obj))})
    k = lambda: [leafs(F.A_ROT, "rk", None)]  # noqa: E731
    c = count("fam")
    key, first = fam("fk", c, "f"), name("f0", "f")
    for sid, one, wrap in [
            ("animations", {"bones": {"b1": {"rotate": k()}}}, lambda m: m),
            ("animated bones", {"rotate": k()}, lambda m: {"an": {"bones": m}}),
            ("animated ik constraints", [{"time": num("t"), "mix": num("m", ne=(1,))}], lambda m: {"an": {"ik": m}}),
            ("animated transform constraints", [{"time": num("t"), "rotateMix": num("m", ne=(1,))}], lambda m: {"an": {"transform": m}}),
            ("animated path constraints", {"position": [{"time": num("t", ne=(0,)), "position": num("m", ne=(0,))}]}, lambda m: {"an": {"path": m}}),
            ("deformed skins", {"s1": {"a1": [{"time": num("t"), "offset": num("o", types=INT)}]}}, lambda m: {"an": {"deform": m}}),
            ("deformed slots", {"a1": [{"time": num("t"), "offset": num("o", types=INT)}]}, lambda m: {"an": {"deform": {"default": m}}}),
            ("deformed attachments", [{"time": num("t"), "offset": num("o", types=INT)}], lambda m: {"an": {"deform": {"default": {"s1": m}}}})]:
        r[sid] = B.doc(bones=bones, slots=slots, animations=wrap(D((first, one), (key, one, "all"))))
    r["events"] = B.doc(events=D((first, {"int": num("i", ne=(0,), types=INT)}), (key, {"string": name("str")}, "all")))
    r["header entries"] = B.doc(head=D(("spine", "3.8.99"), (fam("hk", c, "h", ne=("spine", "images")), name("hv"), "all")))
    return r


def orders():
    r = {}
    n = [name("n%d" % i, "n", ne=("root",)) for i in range(4)]
    root = [dict(B.ROOTBONE)]
    r["bones"] = B.doc(bones=root + [{"name": n[0], "parent": "root"}, {"name": n[1], "parent": n[0]}, {"name": n[2], "parent": "root"}, {"name": n[3], "parent": n[1]}])
    r["slots"] = B.doc(bones=root + [{"name": n[0], "parent": "root"}], slots=[{"name": n[3], "bone": n[0]}, {"name": n[1], "bone": "root"}, {"name": n[2], "bone": n[0]}])
    r["ik constraints"] = B.doc(bones=root + [{"name": n[0], "parent": "root"}, {"name": n[1], "parent": n[0]}],
                                ik=[{"name": n[2], "bones": [n[1]], "target": "root"}, {"name": n[3], "bones": [n[0]], "target": n[1]}])
    for c in ("transform", "path"):
        r[c + " constraints"] = B.doc(bones=root + [{"name": n[0], "parent": "root"}], slots=[{"name": "s", "bone": "root"}],
                                      **{c: [{"name": n[2], "bones": [n[0]], "target": "s"}, {"name": n[3], "bones": ["root", n[0]], "target": "s"}]})
    r["skins"] = B.doc(slots=[{"name": "s", "bone": "root"}], skins=[{"name": "default"}, {"name": n[0], "attachments": {"s": {n[2]: {"x": num("x", ne=(0,))}}}},
                                                                 {"name": n[1], "attachments": {"s": {n[2]: {"x": num("y", ne=(0,))}, n[3]: {"path": name("p")}}}}])
    r["draw order keys"] = B.doc(slots=[{"name": n[0], "bone": "root"}, {"name": n[1], "bone": "root"}],
                                 animations={"an": {"drawOrder": [{"time": num("t1"), "offsets": [{"slot": n[1], "offset": num("o", types=INT)},
                                                                                                    {"slot": n[0], "offset": num("o2", types=INT)}]},
                                                                  {"time": num("t2")}, {"time": num("t3"), "offsets": [{"slot": n[0], "offset": num("o3", types=INT)}]}]}})
    r["attachments that share a name in several slots"] = B.doc(
        slots=[{"name": n[0], "bone": "root", "attachment": n[2]}, {"name": n[1], "bone": "root", "attachment": n[2]}],
        skins=[{"name": "default", "attachments": {n[0]: {n[2]: {"path": name("p1"), "x": num("x1")}}, n[1]: {n[2]: {"path": name("p2"), "x": num("x2")}}}}])
    r["objects that share one name"] = B.doc(
        bones=root + [{"name": n[0], "parent": "root"}], slots=[{"name": n[0], "bone": n[0], "attachment": n[0]}],
        skins=[{"name": n[0], "attachments": {n[0]: {n[0]: {"x": num("x1", ne=(0,))}}}}], events={n[0]: {"int": num("i", ne=(0,))}},
        ik=[{"name": n[0], "bones": [n[0]], "target": "root"}], transform=[{"name": n[0], "bones": [n[0]], "target": "root"}],
        path=[{"name": n[0], "bones": [n[0]], "target": n[0]}],
        animations={n[0]: {"slots": {n[0]: {"attachment": [{"name": n[0], "time": num("t")}]}}, "bones": {n[0]: {"rotate": [{"angle": num("an")}]}},
                           "events": [{"name": n[0], "time": num("t4")}], "ik": {n[0]: [{"mix": num("mix")}]}}})
    return r


def c02(tier):
    for o in B.KINDS:
        for k in attrs(o):
            yield Scenario("any %s of a %s" % (k, o.kind), LOAD, [B.place(o.kind, B.one(o, k, False))], B.same_document())
        yield Scenario("a %s without optional attributes" % o.kind, LOAD, [B.place(o.kind, B.one(o, None, False))], B.same_document())


# ---------------------------------------------------------------- C03
def rejected_or_kept(out):
    if out.raised:
        return []
    return problems(compare(norm(F.DOC, out.ret(0)), norm(F.DOC, out.args[0]), "document"))


def must_raise(out):
    if out.raised:
        return []
    return ["accepted"]


def c03(tier):
    objs = list(B.KINDS) + [F.SKIN, F.ANIM, F.A_SLOT, F.A_BONE, F.A_PATH]
    for o in B.KINDS:
        x = B.one(o, None, False)
        known = tuple(o.attrs) + ("type", "attachments")
        d = D(*(list(x.items()) + [(name("unknown_key", ne=known), name("unknown_value"))]))
        yield Scenario("unknown attribute in a %s" % o.kind, LOAD, [B.place(o.kind, d)], rejected_or_kept, may_raise=True)
        d = D(*(list(B.full(o).items()) + [(name("unknown_key", ne=known), name("unknown_value"))]))
        yield Scenario("unknown attribute beside all others in a %s" % o.kind, LOAD, [B.place(o.kind, d)], rejected_or_kept, may_raise=True)
    top = B.doc(slots=[{"name": "s1", "bone": "root"}])
    for where, d in [
            ("a document", D(*(list(top.items()) + [(name("k", ne=tuple(F.DOC.attrs)), name("v"))]))),
            ("a skin", B.place("skin", D(("name", "default"), ("attachments", {}), (name("k", ne=("name", "attachments")), name("v"))))),
            ("an animation", B.doc(animations={"an": D((name("k", ne=tuple(F.ANIM.attrs)), name("v")))})),
            ("an animation, holding an object", B.doc(animations={"an": D((name("k", ne=tuple(F.ANIM.attrs)), {name("k2"): [num("v")]}))})),
            ("a slot timeline", B.doc(slots=[{"name": "s1", "bone": "root"}], animations={"an": {"slots": {"s1": D((name("k", ne=tuple(F.A_SLOT.attrs)), [num("v")]))}}})),
            ("a bone timeline", B.doc(animations={"an": {"bones": {"root": D((name("k", ne=tuple(F.A_BONE.attrs)), [num("v")]))}}}))]:
        yield Scenario("unknown attribute in %s" % where, LOAD, [d], rejected_or_kept, may_raise=True)
    kinds = ("mesh", "linkedmesh", "boundingbox", "path", "point", "clipping", "region")
    yield Scenario("unknown attachment type", LOAD, [B.place("region", {"type": name("typ", ne=kinds), "x": num("x")})], rejected_or_kept, may_raise=True)
    # attributes of one kind of attachment in another kind
    atts = [F.REGION, F.MESH, F.LINKED, F.BBOX, F.PATHATT, F.POINT, F.CLIP]
    done = set()
    for o in atts:
        for o2 in atts:
            for k in o2.attrs:
                if k not in o.attrs and k != "type" and isinstance(o2.attrs[k], tuple) and (o.kind, k) not in done:
                    done.add((o.kind, k))
                    x = B.one(o, None, False)
                    x[k] = F.value(o2.attrs[k][0], "v")
                    yield Scenario("%s in a %s attachment" % (k, o.kind), LOAD, [B.place(o.kind, x)], rejected_or_kept, may_raise=True)
    for sid, d in [
            ("bone without name", B.doc(bones=[dict(B.ROOTBONE), {"parent": "root", "x": num("x")}])),
            ("slot without name", B.doc(slots=[{"bone": "root"}])),
            ("slot without bone", B.doc(slots=[{"name": name("s")}])),
            ("draw order offset without offset", B.doc(slots=[{"name": "s1", "bone": "root"}], animations={"an": {"drawOrder": [{"offsets": [{"slot": "s1"}]}]}})),
            ("document without header", {"bones": [dict(B.ROOTBONE)], "slots": [], "skins": []}),
            ("header without version", {"skeleton": {"hash": name("h")}, "bones": [dict(B.ROOTBONE)], "slots": [], "skins": []}),
            ("version of one part", B.doc(version="4")),
            ("version of four parts", B.doc(version="3.8.9.1")),
            ("version without numbers", B.doc(version="abc")),
            ("empty version", B.doc(version="")),
            ("two bones of one name", B.doc(bones=[dict(B.ROOTBONE), {"name": name("n", ne=("root",)), "parent": "root"}, {"name": name("n", ne=("root",)), "parent": "root"}])),
            ("two slots of one name", B.doc(slots=[{"name": name("n"), "bone": "root"}, {"name": name("n"), "bone": "root"}])),
            ("two ik constraints of one name", B.doc(ik=[{"name": name("n"), "bones": [], "target": "root"}, {"name": name("n"), "bones": [], "target": "root"}])),
            ]:
        yield Scenario(sid, LOAD, [d], must_raise, may_raise=True)
