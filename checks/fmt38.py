"""The Spine 3.8 JSON format, written down independently of the library: which attributes each kind
of object has, the value a reader assumes when one is missing, and how objects nest. Only attributes
the library accepts are listed; anything else has to be rejected (property C03)."""
from core import *  # noqa
from core import D, Many, Rest, SDict, SList, Unknown

NODEF = object()  # no fixed default: a missing attribute means something else than any value


class Obj:
    def __init__(self, kind, **attrs):
        """attrs: name -> (type, default) | schema"""
        self.kind, self.attrs = kind, attrs


class Lst:
    def __init__(self, of):
        self.of = of


class Map:
    def __init__(self, of):
        self.of = of


class ByType:
    def __init__(self, table):
        self.table = table


N, S, BO, I_, L, CU = "num", "str", "bool", "int", "list", "curve"
CURVE = dict(curve=(CU, NODEF), c2=(N, 0), c3=(N, 1), c4=(N, 1))
SKELETON = Obj("skeleton")
BONE = Obj("bone", name=(S, NODEF), parent=(S, NODEF), length=(N, 0), transform=(S, "normal"), x=(N, 0), y=(N, 0), rotation=(N, 0),
           scaleX=(N, 1), scaleY=(N, 1), shearX=(N, 0), shearY=(N, 0), color=(S, NODEF), inheritRotation=(BO, True), inheritScale=(BO, True))
SLOT = Obj("slot", name=(S, NODEF), bone=(S, NODEF), attachment=(S, NODEF), color=(S, NODEF), dark=(S, NODEF), blend=(S, "normal"))
IK = Obj("ik", name=(S, NODEF), order=(I_, 0), bones=(L, NODEF), target=(S, NODEF), mix=(N, 1), softness=(N, 0), bendPositive=(BO, True),
         compress=(BO, False), stretch=(BO, False), uniform=(BO, False))
TRANSFORM = Obj("transform", name=(S, NODEF), order=(I_, 0), bone=(S, NODEF), bones=(L, NODEF), target=(S, NODEF), rotation=(N, 0), x=(N, 0), y=(N, 0),
                scaleX=(N, 0), scaleY=(N, 0), shearX=(N, 0), shearY=(N, 0), rotateMix=(N, 1), translateMix=(N, 1), scaleMix=(N, 1),
                shearMix=(N, 1), local=(BO, False), relative=(BO, False))
PATH = Obj("path", name=(S, NODEF), order=(I_, 0), skin=(BO, False), bones=(L, NODEF), target=(S, NODEF), positionMode=(S, "percent"),
           spacingMode=(S, "length"), rotateMode=(S, "tangent"), rotation=(N, 0), position=(N, 0), spacing=(N, 0), rotateMix=(N, 1),
           translateMix=(N, 1))
REGION = Obj("region", name=(S, NODEF), path=(S, NODEF), x=(N, 0), y=(N, 0), rotation=(N, 0), scaleX=(N, 1), scaleY=(N, 1), width=(N, NODEF),
             height=(N, NODEF), color=(S, NODEF))
MESH = Obj("mesh", type=("mesh", NODEF), name=(S, NODEF), path=(S, NODEF), uvs=(L, NODEF), triangles=(L, NODEF), vertices=(L, NODEF),
           hull=(I_, NODEF), edges=(L, NODEF), width=(N, NODEF), height=(N, NODEF), color=(S, NODEF))
LINKED = Obj("linkedmesh", type=("linkedmesh", NODEF), name=(S, NODEF), path=(S, NODEF), skin=(S, NODEF), parent=(S, NODEF), deform=(BO, True),
             width=(N, NODEF), height=(N, NODEF), color=(S, NODEF))
BBOX = Obj("boundingbox", type=("boundingbox", NODEF), vertexCount=("pos", NODEF), vertices=(L, NODEF), color=(S, NODEF))
PATHATT = Obj("pathattachment", type=("path", NODEF), name=(S, NODEF), closed=(BO, False), constantSpeed=(BO, True), lengths=(L, NODEF),
              vertexCount=("pos", NODEF), vertices=(L, NODEF), color=(S, NODEF))
POINT = Obj("point", type=("point", NODEF), x=(N, 0), y=(N, 0), rotation=(N, 0), color=(S, NODEF))
CLIP = Obj("clipping", type=("clipping", NODEF), end=(S, NODEF), vertexCount=("pos", NODEF), vertices=(L, NODEF), color=(S, NODEF))
ATT = ByType({None: REGION, "mesh": MESH, "linkedmesh": LINKED, "boundingbox": BBOX, "path": PATHATT, "point": POINT, "clipping": CLIP})
SKIN = Obj("skin", name=(S, NODEF), attachments=Map(Map(ATT)))
EVENT = Obj("event", int=(I_, 0), float=(N, 0), string=("anystr", ""))
T = dict(time=(N, 0))
A_ATT = Obj("attachment key", name=(S, NODEF), **T)
A_COL = Obj("color key", color=(S, NODEF), **T, **CURVE)
A_COL2 = Obj("twoColor key", light=(S, NODEF), dark=(S, NODEF), **T, **CURVE)
A_SLOT = Obj("slot timeline", attachment=Lst(A_ATT), color=Lst(A_COL), twoColor=Lst(A_COL2))
A_ROT = Obj("rotate key", angle=(N, 0), **T, **CURVE)
A_TRA = Obj("translate key", x=(N, 0), y=(N, 0), **T, **CURVE)
A_SCA = Obj("scale key", x=(N, 1), y=(N, 1), **T, **CURVE)
A_SHE = Obj("shear key", x=(N, 0), y=(N, 0), **T, **CURVE)
A_BONE = Obj("bone timeline", rotate=Lst(A_ROT), translate=Lst(A_TRA), scale=Lst(A_SCA), shear=Lst(A_SHE))
A_IK = Obj("ik key", mix=(N, 1), bendPositive=(BO, True), compress=(BO, False), stretch=(BO, False), **T, **CURVE)
A_TRF = Obj("transform key", rotateMix=(N, 1), translateMix=(N, 1), scaleMix=(N, 1), shearMix=(N, 1), **T, **CURVE)
A_POS = Obj("path position key", position=(N, 0), **T, **CURVE)
A_SPA = Obj("path spacing key", spacing=(N, 0), **T, **CURVE)
A_MIX = Obj("path mix key", rotateMix=(N, 1), translateMix=(N, 1), **T, **CURVE)
A_PATH = Obj("path timeline", position=Lst(A_POS), spacing=Lst(A_SPA), mix=Lst(A_MIX))
A_DEF = Obj("deform key", offset=(I_, 0), vertices=(L, NODEF), **T, **CURVE)
A_OFF = Obj("draw order offset", slot=(S, NODEF), offset=(I_, NODEF))
A_DRAW = Obj("draw order key", offsets=Lst(A_OFF), **T)
A_EVT = Obj("event key", name=(S, NODEF), int=(I_, NODEF), float=(N, NODEF), string=("anystr", NODEF), volume=(N, NODEF), balance=(N, NODEF), **T)
ANIM = Obj("animation", slots=Map(A_SLOT), bones=Map(A_BONE), ik=Map(Lst(A_IK)), transform=Map(Lst(A_TRF)), path=Map(A_PATH),
           deform=Map(Map(Map(Lst(A_DEF)))), drawOrder=Lst(A_DRAW), events=Lst(A_EVT))
DOC = Obj("document", skeleton=Obj("skeleton"), bones=Lst(BONE), slots=Lst(SLOT), ik=Lst(IK), transform=Lst(TRANSFORM), path=Lst(PATH),
          skins=Lst(SKIN), events=Map(EVENT), animations=Map(ANIM))


def value(typ, nm, ne=()):
    """an unknown value of the given type"""
    if typ in (N, I_, "pos"):
        return num(nm, ne, NUMS if typ == N else INT, True if typ == "pos" else None)
    if typ == S:
        return name(nm, None, ne)
    if typ == "anystr":
        return Sym(nm, STR, None, False, None, ne)
    if typ == BO:
        return flag(nm, ne)
    if typ == CU:
        return Sym(nm, NUMS | STR, True, False, None, ne)
    if typ == L:
        c = count(nm)
        return [num(nm + "0"), Rest(fam(nm + "_r", c, types=NUMS), c)]
    return typ  # a literal (attachment type)


def items_of(d):
    """(key, value, presence) of a host dictionary"""
    if isinstance(d, D):
        for it in d.items:
            yield it[0], it[1], (it[2] if len(it) > 2 else "must")
    else:
        for k, v in d.items():
            yield k, v, "must"
        for m in getattr(d, "many", []):
            yield m.key, m.v, m.pres
        for k, v in getattr(d, "fuzzy", []):
            yield k, v, "fuzzy"


def empty(v):
    if isinstance(v, D):
        return not v.items
    if isinstance(v, dict):
        return not v and not getattr(v, "many", []) and not getattr(v, "fuzzy", [])
    return isinstance(v, (list, tuple)) and not v


def norm(schema, x):
    """drop what a reader assumes anyway: attributes that are null, empty or equal to the default"""
    if isinstance(x, Unknown) or schema is None:
        return x
    if isinstance(schema, ByType):
        t = None
        for k, v, p in items_of(x) if isinstance(x, (dict, D)) else ():
            if k == "type":
                t = v
        try:
            sub = schema.table.get(t)
        except TypeError:
            sub = None
        return norm(sub, x)
    if isinstance(schema, (Obj, Map)):
        if not isinstance(x, (dict, D)):
            return x
        r = SDict()
        r.unord = getattr(x, "unord", False)
        r.site = getattr(x, "site", "")
        for k, v, p in items_of(x):
            if isinstance(schema, Obj):
                sub = schema.attrs.get(k) if not isinstance(k, Val) else None
                if isinstance(sub, tuple):
                    if v is None or (sub[1] is not NODEF and same_const(v, sub[1])) or empty(v):
                        continue
                elif sub is not None:
                    v = norm(sub, v)
                    if v is None or empty(v):
                        continue
                elif v is None:
                    continue
            else:
                v = norm(schema.of, v)
            if p == "must":
                r[k] = v
            elif p in ("all", "star"):
                r.many.append(Many(k, v, p))
            else:
                r.fuzzy.append((k, v))
        return r
    if isinstance(schema, Lst):
        if not isinstance(x, (list, tuple)):
            return x
        r = SList()
        r.unord = getattr(x, "unord", False)
        r.site = getattr(x, "site", "")
        for e in x:
            r.append(Rest(norm(schema.of, e.v), e.cnt) if isinstance(e, Rest) else norm(schema.of, e))
        return r
    return x


def same_const(v, c):
    if isinstance(v, Val) or isinstance(v, (dict, list, D, Unknown)):
        return False
    return isinstance(v, bool) == isinstance(c, bool) and v == c
