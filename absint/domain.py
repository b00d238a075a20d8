"""Abstract values and heap objects.

Everything here is immutable; heap objects are replaced, never mutated, so a state
fork is a shallow dict copy.

Scalars
  C(v)        a known constant
  Sym         an unknown scalar with identity (an arbitrary but fixed value);
              multi=True makes it a summary symbol: "any of the others in its group"
  Cat         string concatenation in normal form
  Term/Poly   a pure function of other scalars (hash-consed by structure)
  Idx/Len     a position in / the length of a sequence of a given shape
  Top         unknown value (optionally with a set of possible types)
  Un          one of several values
  Tup         immutable sequence
Heap objects
  Inst, ListO, DictO, SetO, Frame, ClsO
Sequence segments are ('E', v) exactly one, ('M', v) at most one, ('R', v) any number.
Dict/set entries have presence 'must', 'may' or 'star' (any number, summary key).
"""

NUM = frozenset(["int", "float"])
SCALAR = frozenset(["int", "float", "bool", "str"])


class Val:
    __slots__ = ("_h",)

    def _key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self._key() == o._key())

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        try:
            return self._h
        except AttributeError:
            self._h = hash((self.__class__.__name__, self._key()))
            return self._h


class C(Val):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def _key(self):
        return (type(self.v).__name__, self.v if self.v == self.v else "nan")

    def __repr__(self):
        return repr(self.v)


NONE, TRUE, FALSE = C(None), C(True), C(False)


def B(b):
    return TRUE if b else FALSE


class Sym(Val):
    """Unknown scalar. Identity is the name."""

    __slots__ = ("name", "types", "truth", "multi", "group", "ne", "nochars", "own", "org")

    def __init__(self, name, types=None, truth=None, multi=False, group=None, ne=(), nochars="", own=None, org=None):
        self.name, self.types, self.truth, self.multi = name, types, truth, multi
        self.group, self.ne, self.nochars = group, frozenset(ne), nochars
        # own: (multi) the count of the sequence segment whose elements this symbol names, one each
        # org: (one element singled out during an iteration) the summary symbol it came from
        self.own, self.org = own, org

    def _key(self):
        return self.name

    def __repr__(self):
        return ("*" if self.multi else "") + "<" + self.name + ">"


class Cat(Val):
    """String concatenation; parts are str constants (python str) or Val."""

    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = parts

    def _key(self):
        return self.parts

    def __repr__(self):
        return "cat(" + "+".join(repr(p) for p in self.parts) + ")"


def mkcat(parts):
    out = []
    for p in parts:
        if isinstance(p, C) and isinstance(p.v, str):
            p = p.v
        if isinstance(p, Cat):
            sub = list(p.parts)
        else:
            sub = [p]
        for q in sub:
            if isinstance(q, str):
                if not q:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += q
                    continue
            out.append(q)
    if not out:
        return C("")
    if len(out) == 1:
        return C(out[0]) if isinstance(out[0], str) else out[0]
    return Cat(tuple(out))


class Term(Val):
    __slots__ = ("op", "args", "types")

    def __init__(self, op, args, types=None):
        self.op, self.args, self.types = op, tuple(args), types

    def _key(self):
        return (self.op, self.args)

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join(map(repr, self.args)))


class Poly(Val):
    """Sum of monomials: {tuple(sorted factors): coeff}."""

    __slots__ = ("mons",)

    def __init__(self, mons):
        self.mons = mons  # tuple of (factors tuple, coeff)

    def _key(self):
        return self.mons

    def __repr__(self):
        return "poly(" + " + ".join(
            "*".join([repr(c)] + [repr(f) for f in fs]) for fs, c in self.mons) + ")"


class Idx(Val):
    """Some position base + [0, cnt) in a sequence (position of an R-segment element)."""

    __slots__ = ("base", "cnt")

    def __init__(self, base, cnt):
        self.base, self.cnt = base, cnt

    def _key(self):
        return (self.base, self.cnt)

    def __repr__(self):
        return "idx(%r+%r)" % (self.base, self.cnt)


class Len(Val):
    """Length of the list / dict / set at heap address a (used when the exact count is
    not expressible)."""

    __slots__ = ("a", "obj", "lo")

    def __init__(self, a, obj, lo):
        self.a, self.obj, self.lo = a, obj, lo

    def _key(self):
        return (self.a, self.lo)

    def __repr__(self):
        return "len(@%s>=%d)" % (self.a, self.lo)


class Ch(Val):
    """A definite but unknown alternative: facts[('ch', tok)] selects the label."""

    __slots__ = ("tok", "alts")

    def __init__(self, tok, alts):
        self.tok, self.alts = tok, tuple(alts)

    def _key(self):
        return (self.tok, self.alts)

    def __repr__(self):
        return "ch:%s{%s}" % (self.tok, "|".join("%s=%r" % a for a in self.alts))


class Absent(Val):
    """Marks a dictionary entry that is not there (only inside Ch/Un alternatives)."""

    __slots__ = ()

    def _key(self):
        return 0

    def __repr__(self):
        return "ABSENT"


ABSENT = Absent()


def seg3(segs):
    return tuple(s if len(s) == 3 else (s[0], s[1], None) for s in segs)


class Top(Val):
    __slots__ = ("types", "why")

    def __init__(self, types=None, why=""):
        self.types, self.why = types, why

    def _key(self):
        return (self.types,)

    def __repr__(self):
        return "Top" + ("{%s}" % ",".join(sorted(self.types)) if self.types else "")


class Un(Val):
    __slots__ = ("vals",)

    def __init__(self, vals):
        self.vals = vals

    def _key(self):
        return self.vals

    def __repr__(self):
        return "Un(" + " | ".join(sorted(map(repr, self.vals))) + ")"


class Ref(Val):
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def _key(self):
        return self.a

    def __repr__(self):
        return "@%s" % (self.a,)


class Tup(Val):
    __slots__ = ("segs", "shape")

    def __init__(self, segs, shape=None):
        self.segs, self.shape = seg3(segs), shape

    def _key(self):
        return (self.segs, self.shape)

    def __repr__(self):
        return "(" + ", ".join((k if k != "E" else "") + repr(v) for k, v, _ in self.segs) + ")"


def tup(*vals):
    return Tup(tuple(("E", v) for v in vals))


class Fn(Val):
    """A function object: AST node + closure frame."""

    __slots__ = ("info", "frame", "defaults", "kwdefaults")

    def __init__(self, info, frame, defaults=(), kwdefaults=()):
        self.info, self.frame, self.defaults, self.kwdefaults = info, frame, defaults, kwdefaults

    def _key(self):
        return (id(self.info), self.frame, self.defaults, self.kwdefaults)

    def __repr__(self):
        return "fn:" + self.info.qual


class FnInfo:
    def __init__(self, node, qual, module, cls, isgen):
        self.node, self.qual, self.module, self.cls, self.isgen = node, qual, module, cls, isgen
        self.haslambda = False
        self.nonlocals = frozenset()
        self.globals = frozenset()


class Bound(Val):
    __slots__ = ("self_", "fn")

    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def _key(self):
        return (self.self_, self.fn)

    def __repr__(self):
        return "bound:%r" % (self.fn,)


class Wrapped(Val):
    """staticmethod / classmethod / property objects in class dictionaries."""

    __slots__ = ("kind", "fn", "setter")

    def __init__(self, kind, fn, setter=None):
        self.kind, self.fn, self.setter = kind, fn, setter

    def _key(self):
        return (self.kind, self.fn, self.setter)

    def __repr__(self):
        return "%s(%r)" % (self.kind, self.fn)


class Cls(Val):
    """A class defined in the analysed program; attributes live in the heap at .a"""

    __slots__ = ("name", "qual", "a", "bases", "mro", "kind", "fields")

    def __init__(self, name, qual, a, bases, kind="class", fields=()):
        self.name, self.qual, self.a, self.bases, self.kind = name, qual, a, bases, kind
        self.fields = fields
        self.mro = None

    def _key(self):
        return self.qual

    def __repr__(self):
        return "cls:" + self.name


class Mod(Val):
    __slots__ = ("name", "frame")

    def __init__(self, name, frame):
        self.name, self.frame = name, frame

    def _key(self):
        return self.name

    def __repr__(self):
        return "mod:" + self.name


class Bi(Val):
    """Builtin / library callable or namespace, by dotted name, optionally bound."""

    __slots__ = ("name", "self_", "extra")

    def __init__(self, name, self_=None, extra=None):
        self.name, self.self_, self.extra = name, self_, extra

    def _key(self):
        return (self.name, self.self_, self.extra)

    def __repr__(self):
        return "bi:" + self.name + ("[%r]" % (self.self_,) if self.self_ is not None else "")


class SuperV(Val):
    __slots__ = ("cls", "self_")

    def __init__(self, cls, self_):
        self.cls, self.self_ = cls, self_

    def _key(self):
        return (self.cls, self.self_)


class InstDict(Val):
    """obj.__dict__"""

    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def _key(self):
        return self.a


class Raise:
    """A raised exception as the result of an evaluation (not a value)."""

    __slots__ = ("exc", "args", "explicit", "where", "val", "msg")

    def __init__(self, exc, args=(), explicit=False, where="", val=None, msg=""):
        self.exc, self.args, self.explicit, self.where, self.val = exc, args, explicit, where, val
        self.msg = msg

    def excname(self):
        return self.exc.name if isinstance(self.exc, Cls) else str(self.exc)

    def key(self):
        return (self.excname(), self.explicit)

    def __repr__(self):
        return "Raise(%s%s at %s %s)" % (self.excname(), "" if self.explicit else "?", self.where, self.msg)


# ---------------------------------------------------------------- heap objects
class Obj:
    __slots__ = ()

    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return self is o or (self.__class__ is o.__class__ and self.key() == o.key())

    def __ne__(self, o):
        return not self == o

    __hash__ = None


class Frame(Obj):
    __slots__ = ("vars", "parent", "info")

    def __init__(self, vars, parent, info):
        self.vars, self.parent, self.info = vars, parent, info

    def key(self):
        return (self.vars, self.parent, id(self.info))

    def set(self, n, v):
        d = dict(self.vars)
        d[n] = v
        return Frame(d, self.parent, self.info)


class Inst(Obj):
    __slots__ = ("cls", "attrs", "summ", "depth")

    def __init__(self, cls, attrs, summ=False, depth=0):
        self.cls, self.attrs, self.summ, self.depth = cls, attrs, summ, depth

    def key(self):
        return (self.cls, self.attrs, self.summ, list(self.attrs))

    def with_(self, **kw):
        r = Inst(self.cls, self.attrs, self.summ, self.depth)
        for k, v in kw.items():
            setattr(r, k, v)
        return r

    def __repr__(self):
        return "%s%s{%s}" % (self.cls, "*" if self.summ else "", ", ".join("%s=%r" % i for i in self.attrs.items()))


class ClsO(Obj):
    __slots__ = ("attrs",)
    summ = False

    def __init__(self, attrs):
        self.attrs = attrs

    def key(self):
        return self.attrs


class ListO(Obj):
    """kind: list | iter.  shape: token shared by sequences known to be index-aligned."""

    __slots__ = ("segs", "kind", "shape", "summ", "depth", "unord")

    def __init__(self, segs, kind="list", shape=None, summ=False, depth=0, unord=False):
        self.segs, self.kind, self.shape = seg3(segs), kind, shape
        self.summ, self.depth, self.unord = summ, depth, unord

    def key(self):
        return (self.segs, self.kind, self.shape, self.summ, self.unord)

    def with_(self, **kw):
        r = ListO(self.segs, self.kind, self.shape, self.summ, self.depth, self.unord)
        for k, v in kw.items():
            setattr(r, k, seg3(v) if k == "segs" else v)
        return r

    def __repr__(self):
        return "[%s]%s%s" % (", ".join((k if k != "E" else "") + repr(v) for k, v, _ in self.segs),
                             "*" if self.summ else "", "~" if self.unord else "")


class DictO(Obj):
    """items: tuple of (key Val, value Val, presence)"""

    __slots__ = ("items", "kind", "factory", "summ", "depth", "unord")

    def __init__(self, items, kind="dict", factory=None, summ=False, depth=0, unord=False):
        self.items, self.kind, self.factory = tuple(items), kind, factory
        self.summ, self.depth, self.unord = summ, depth, unord

    def key(self):
        return (self.items, self.kind, self.factory, self.summ, self.unord)

    def with_(self, **kw):
        r = DictO(self.items, self.kind, self.factory, self.summ, self.depth, self.unord)
        for k, v in kw.items():
            setattr(r, k, tuple(v) if k == "items" else v)
        return r

    def __repr__(self):
        return "{%s}%s" % (", ".join("%s%r: %r" % ({"must": "", "may": "?", "star": "*"}[p], k, v)
                                    for k, v, p in self.items), "*" if self.summ else "")


class SetO(Obj):
    __slots__ = ("items", "frozen", "summ", "depth")

    def __init__(self, items, frozen=False, summ=False, depth=0):
        self.items, self.frozen, self.summ, self.depth = tuple(items), frozen, summ, depth

    def key(self):
        return (frozenset(self.items), self.frozen, self.summ)

    def with_(self, **kw):
        r = SetO(self.items, self.frozen, self.summ, self.depth)
        for k, v in kw.items():
            setattr(r, k, tuple(v) if k == "items" else v)
        return r

    def __repr__(self):
        return "set{%s}%s" % (", ".join("%s%r" % ({"must": "", "may": "?", "star": "*"}[p], k)
                                        for k, p in self.items), "*" if self.summ else "")


# ---------------------------------------------------------------- helpers
def map_scalar(v, f):
    """rebuild a scalar with every Sym replaced by f(sym)"""
    if isinstance(v, Sym):
        return f(v)
    if isinstance(v, Cat):
        ps = [p if isinstance(p, str) else map_scalar(p, f) for p in v.parts]
        return v if all(x is y for x, y in zip(ps, v.parts)) else mkcat(ps)
    if isinstance(v, Term):
        ps = tuple(map_scalar(p, f) if isinstance(p, Val) else p for p in v.args)
        return v if all(x is y for x, y in zip(ps, v.args)) else Term(v.op, ps, v.types)
    if isinstance(v, Poly):
        d, ch = {}, False
        for fs, c in v.mons:
            g = tuple(map_scalar(x, f) for x in fs)
            ch = ch or any(x is not y for x, y in zip(g, fs))
            for x in g:
                if isinstance(x, C) and isinstance(x.v, (int, float)):
                    c = c * x.v
            g = tuple(sorted((x for x in g if not (isinstance(x, C) and isinstance(x.v, (int, float)))), key=repr))
            d[g] = d.get(g, 0) + c
        return mkpoly(d) if ch else v
    return v


def gen(v):
    """the summary form of a value that mentions singled-out elements"""
    return map_scalar(v, root_sym)


def root_sym(s):
    while s.org is not None:
        s = s.org
    return s


def apart(x, y):
    """x stands for elements an enclosing loop is done with, y for the one it is at (or back)"""
    for p, q in ((x, y), (y, x)):
        a = p
        while a is not None:
            i = a.name.rfind("~")
            if i >= 0 and "!" not in a.name[i:]:
                b = q
                while b is not None:
                    if b.org is not None and b.name == a.org.name + "!" + a.name[i + 1:]:
                        return True
                    b = b.org
            a = a.org
    return False


def syms_in(v):
    out = []
    map_scalar(v, lambda s: out.append(s) or s)
    return out


def owned_by(v, cnt):
    """v names exactly one element per member of the segment counted by cnt"""
    ms = [s for s in syms_in(v) if s.multi]
    return cnt is not None and bool(ms) and all(s.own is not None and s.own == cnt for s in ms)


def own_count(v):
    ms = {s.own for s in syms_in(v) if s.multi}
    return ms.pop() if len(ms) == 1 else None


def is_multi(v):
    if isinstance(v, Sym):
        return v.multi
    if isinstance(v, Cat):
        return any(not isinstance(p, str) and is_multi(p) for p in v.parts)
    if isinstance(v, Term):
        return any(is_multi(x) for x in v.args)
    if isinstance(v, Poly):
        return any(is_multi(f) for fs, _ in v.mons for f in fs)
    if isinstance(v, Idx):
        return True
    if isinstance(v, Top):
        return True
    if isinstance(v, Un):
        return True
    if isinstance(v, Tup):
        return any(k != "E" or is_multi(x) for k, x, _ in v.segs)
    return False


def types_of_scalar(v):
    """Set of possible type names, or None when unknown. Refs are handled by the interpreter."""
    if isinstance(v, C):
        x = v.v
        if x is None:
            return frozenset(["none"])
        return frozenset([type(x).__name__])
    if isinstance(v, (Sym, Top, Term)):
        return v.types
    if isinstance(v, Cat):
        return frozenset(["str"])
    if isinstance(v, Poly):
        return NUM
    if isinstance(v, (Idx, Len)):
        return frozenset(["int"])
    if isinstance(v, Tup):
        return frozenset(["tuple"])
    if isinstance(v, Un):
        r = frozenset()
        for x in v.vals:
            t = types_of_scalar(x)
            if t is None:
                return None
            r |= t
        return r
    if isinstance(v, (Fn, Bound, Bi)):
        return frozenset(["function"])
    if isinstance(v, Cls):
        return frozenset(["type"])
    return None


def poly_of(v):
    """-> dict monomial->coeff or None when v is not numeric-linear material."""
    if isinstance(v, C) and isinstance(v.v, (int, float)) and not isinstance(v.v, bool):
        return {(): v.v}
    if isinstance(v, Poly):
        return dict(v.mons)
    if isinstance(v, (Sym, Term, Idx, Len)):
        t = types_of_scalar(v)
        if t is None or t <= NUM:
            return {(v,): 1}
    return None


def mkpoly(d):
    d = {k: c for k, c in d.items() if c != 0}
    if not d:
        return C(0)
    if list(d) == [()]:
        return C(d[()])
    if len(d) == 1:
        (fs, c), = d.items()
        if len(fs) == 1 and c == 1:
            return fs[0]
    return Poly(tuple(sorted(((fs, c) for fs, c in d.items()), key=repr)))


def poly_add(a, b, sign=1):
    d = dict(a)
    for k, c in b.items():
        d[k] = d.get(k, 0) + sign * c
    return mkpoly(d)


def poly_mul(a, b):
    d = {}
    for k1, c1 in a.items():
        for k2, c2 in b.items():
            k = tuple(sorted(k1 + k2, key=repr))
            d[k] = d.get(k, 0) + c1 * c2
    return mkpoly(d)
