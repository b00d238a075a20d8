"""Documents the scenarios start from."""
from core import *  # noqa
from core import D, Rest, Scenario, count, fam, flag, name, num, problems, compare
from fmt38 import *  # noqa
from fmt38 import A_ATT, NODEF, norm, value
import fmt38 as F

VERSION = "3.8.99"
ROOTBONE = {"name": "root"}


def header(version=VERSION, **kw):
    r = {"hash": name("hash"), "spine": version}
    r.update(kw)
    return r


def doc(bones=None, slots=None, skins=None, animations=None, version=VERSION, head=None, **kw):
    r = {"skeleton": head if head is not None else header(version), "bones": [dict(ROOTBONE)] if bones is None else bones,
         "slots": [] if slots is None else slots, "skins": [] if skins is None else skins}
    if animations is not None:
        r["animations"] = animations
    r.update(kw)
    return r


def make(obj, nm, only=None, ne_default=True, skip=()):
    """an object of the kind with unknown attribute values (different from the default where ne_default)"""
    r = {}
    for k, t in obj.attrs.items():
        if k in skip or (only is not None and k not in only and not (isinstance(t, tuple) and t[0] in ("mesh", "linkedmesh", "boundingbox", "path", "point", "clipping"))):
            continue
        if isinstance(t, tuple):
            typ, d = t
            if typ == "bool" and ne_default and d is not NODEF:
                r[k] = not d
            else:
                ne = (d,) if ne_default and d is not NODEF and not isinstance(d, bool) else ()
                r[k] = value(typ, "%s_%s" % (nm, k), ne)
        elif isinstance(t, F.Lst):
            r[k] = [make(t.of, "%s_%s0" % (nm, k), None, ne_default), make(t.of, "%s_%s1" % (nm, k), None, ne_default)]
    return r


# ---- a document with one object of each kind in place; nm(...) are the unknown names
b, s, s2, a, sk, an = name("bone"), name("slot"), name("slot2"), name("att"), name("skin"), name("anim")
G = "names"


def nm(x):
    return name(x)


def place(kind, o):
    """document with object o of the given kind in its place"""
    bones = [dict(ROOTBONE), {"name": "b1", "parent": "root"}]
    slots = [{"name": "s1", "bone": "b1"}]
    if kind == "bone":
        return doc(bones=[dict(ROOTBONE), o])
    if kind == "slot":
        return doc(bones=bones, slots=[o])
    if kind in ("ik", "transform", "path"):
        return doc(bones=bones, slots=slots, **{kind: [o]})
    if kind in ("region", "mesh", "linkedmesh", "boundingbox", "pathattachment", "point", "clipping"):
        return doc(bones=bones, slots=slots, skins=[{"name": "default", "attachments": {"s1": {"a1": o}}}])
    if kind == "skin":
        return doc(bones=bones, slots=slots, skins=[o])
    if kind == "event":
        return doc(bones=bones, events={"e1": o})
    an = {"attachment key": lambda: {"slots": {"s1": {"attachment": [o]}}},
          "color key": lambda: {"slots": {"s1": {"color": [o]}}},
          "twoColor key": lambda: {"slots": {"s1": {"twoColor": [o]}}},
          "rotate key": lambda: {"bones": {"b1": {"rotate": [o]}}},
          "translate key": lambda: {"bones": {"b1": {"translate": [o]}}},
          "scale key": lambda: {"bones": {"b1": {"scale": [o]}}},
          "shear key": lambda: {"bones": {"b1": {"shear": [o]}}},
          "ik key": lambda: {"ik": {"i1": [o]}},
          "transform key": lambda: {"transform": {"t1": [o]}},
          "path position key": lambda: {"path": {"p1": {"position": [o]}}},
          "path spacing key": lambda: {"path": {"p1": {"spacing": [o]}}},
          "path mix key": lambda: {"path": {"p1": {"mix": [o]}}},
          "deform key": lambda: {"deform": {"default": {"s1": {"a1": [o]}}}},
          "draw order key": lambda: {"drawOrder": [o]},
          "draw order offset": lambda: {"drawOrder": [{"offsets": [o]}]},
          "event key": lambda: {"events": [o]},
          }[kind]()
    return doc(bones=bones, slots=slots, animations={"anim": an})


KINDS = [F.BONE, F.SLOT, F.IK, F.TRANSFORM, F.PATH, F.REGION, F.MESH, F.LINKED, F.BBOX, F.PATHATT, F.POINT, F.CLIP, F.EVENT,
         F.A_ATT, F.A_COL, F.A_COL2, F.A_ROT, F.A_TRA, F.A_SCA, F.A_SHE, F.A_IK, F.A_TRF, F.A_POS, F.A_SPA, F.A_MIX, F.A_DEF, F.A_OFF,
         F.A_DRAW, F.A_EVT]
# attributes without which the surrounding document would not be well formed
NEEDED = {"bone": {"name": name("bn", ne=("root",)), "parent": "root"}, "slot": {"name": name("sn"), "bone": "b1"},
          "ik": {"name": name("kn"), "bones": ["b1"], "target": "root"}, "transform": {"name": name("tn"), "bones": ["b1"], "target": "root"},
          "path": {"name": name("pn"), "bones": ["b1"], "target": "s1"}, "draw order offset": {"slot": "s1", "offset": num("of", types=INT)}}


def one(obj, attr, ne_default):
    """object with one attribute of interest and the needed ones"""
    o = make(obj, obj.kind[:3], {attr}, ne_default)
    o.update(NEEDED.get(obj.kind, {}))
    fix(obj, o)
    return o


def full(obj, ne_default=True):
    o = make(obj, obj.kind[:3], None, ne_default)
    for k, v in NEEDED.get(obj.kind, {}).items():
        o[k] = v
    fix(obj, o)
    return o


def fix(obj, o):
    if obj is F.SLOT and "bone" in o:
        o["bone"] = "b1"
    if obj is F.BONE:
        o["parent"] = "root"
    if "bones" in o:
        o["bones"] = ["b1"]
    for k, v in list(o.items()):
        if isinstance(v, list) and k == "offsets":
            o[k] = [{"slot": "s1", "offset": num("of0", types=INT)}]


def same_document(sc_args_index=0, schema=None, pick=None):
    """check: the saved document says the same as the loaded one"""
    def check(out):
        return problems(compare(norm(F.DOC, out.ret(0)), norm(F.DOC, out.args[sc_args_index]), "document"))
    return check
