"""Primitive operations of the abstract semantics."""
import ast

from domain import *  # noqa
from state import *  # noqa
from state import Hard, weakv
import lib

NUMT = frozenset(["int", "float", "bool"])


# ------------------------------------------------------------------ force / facts
def force(I, st, v):
    """resolve alternatives -> [(st, v)] with v neither Ch nor Un"""
    if isinstance(v, Ch):
        k = ("ch", v.tok)
        f = st.facts.get(k)
        res = []
        if f is not None and not isinstance(f, frozenset):
            for lab, x in v.alts:
                if lab == f:
                    return force(I, st, x)
        live = [(lab, x) for lab, x in v.alts]
        # labels with the same payload stay together only if they are all there is
        for i, (lab, x) in enumerate(live):
            s = st.fork() if i < len(live) - 1 else st
            s.facts[k] = lab
            res.extend(force(I, s, x))
        return res
    if isinstance(v, Un):
        res = []
        vals = sorted(v.vals, key=repr)
        if len(vals) > 1:
            st.mark("one of several values")
        for i, x in enumerate(vals):
            s = st.fork() if i < len(vals) - 1 else st
            res.extend(force(I, s, x))
        return res
    return [(st, v)]


def alts(st, v):
    """possible forced values, without forking"""
    if isinstance(v, Ch):
        f = st.facts.get(("ch", v.tok))
        out = []
        for lab, x in v.alts:
            if f is None or lab == f:
                out += alts(st, x)
        return out
    if isinstance(v, Un):
        out = []
        for x in v.vals:
            out += alts(st, x)
        return out
    return [v]


def types_of(st, v):
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, ListO):
            return frozenset(["list" if o.kind == "list" else o.kind])
        if isinstance(o, DictO):
            return frozenset(["dict"])
        if isinstance(o, SetO):
            return frozenset(["frozenset" if o.frozen else "set"])
        if isinstance(o, Inst):
            return frozenset(["obj"])
        return None
    if isinstance(v, (Ch, Un)):
        r = frozenset()
        for x in alts(st, v):
            t = types_of(st, x)
            if t is None:
                return None
            r |= t
        return r
    return types_of_scalar(v)


def fork_bool(st, key=None, multi=False):
    if key is None or multi:
        st.mark("undecided test %r" % (key,))
    a, b = st, st.fork()
    if key is not None and not multi:
        a.facts[key] = True
        b.facts[key] = False
    return [(a, True), (b, False)]


def truth(I, st, v, node=None):
    if isinstance(v, (Ch, Un)):
        res = []
        for s, x in force(I, st, v):
            res.extend(truth(I, s, x, node))
        return res
    if isinstance(v, C):
        return [(st, bool(v.v))]
    if isinstance(v, Sym):
        if v.truth is not None:
            return [(st, v.truth)]
        if v.types is not None and v.types <= frozenset(["none"]):
            return [(st, False)]
        f = st.facts.get(("t", v))
        if f is not None:
            return [(st, f)]
        e = scalar_truth(I, st, v)
        if e is not None:
            return [(st, e)]
        z = falsy_of(v)
        if z is not None:
            return [(s, x if isinstance(x, Raise) else not x) for s, x in eqfork(I, st, v, z, node)]
        return fork_bool(st, ("t", v), v.multi)
    if isinstance(v, Cat):
        if any(isinstance(p, str) and p for p in v.parts):
            return [(st, True)]
        for p in v.parts:
            if not isinstance(p, str) and isinstance(p, Sym) and p.truth:
                return [(st, True)]
        return fork_bool(st, ("t", v), is_multi(v))
    if isinstance(v, (Term, Poly)):
        e = eqv(I, st, v, C(0)) if isinstance(v, Poly) else None
        if e is not None:
            return [(st, not e)]
        f = st.facts.get(("t", v))
        if f is not None:
            return [(st, f)]
        return fork_bool(st, ("t", v), is_multi(v))
    if isinstance(v, Len):
        return len_truth(I, st, v)
    if isinstance(v, (Top, Idx)):
        return fork_bool(st)
    if isinstance(v, Tup):
        if any(k == "E" for k, _, _ in v.segs):
            return [(st, True)]
        if not v.segs:
            return [(st, False)]
        return fork_bool(st)
    if isinstance(v, Ref):
        return ref_truth(I, st, v, node)
    if isinstance(v, InstDict):
        o = st.get(v.a)
        return [(st, bool(o.attrs))]
    if isinstance(v, Bi) and v.name in ("view.keys", "view.values", "view.items") and isinstance(v.self_, Ref):
        return ref_truth(I, st, v.self_, node)
    if isinstance(v, Cls):
        return [(st, True)]
    return [(st, True)]


def falsy_of(v):
    """the only false value of v's types, if there is exactly one"""
    t = v.types
    if t and t <= frozenset(["int", "float", "bool"]):
        return C(0)
    if t and t <= frozenset(["str"]):
        return C("")
    return None


def scalar_truth(I, st, v):
    for c in (C(0), C("")):
        if st.facts.get(eqkey(v, c)) is True:
            return False
    for k, b in st.facts.items():
        if b is True and k[0] == "eq" and (k[1] == v or k[2] == v):
            o = k[2] if k[1] == v else k[1]
            if isinstance(o, C):
                return bool(o.v)
            if isinstance(o, Sym) and o.truth is not None:
                return o.truth
    return None


def nonneg_le(a, b):
    """a <= b for all values of the (nonnegative) counts? a,b polynomials"""
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return None
    d = dict(pb)
    for k, c in pa.items():
        d[k] = d.get(k, 0) - c
    ok = True
    for k, c in d.items():
        if c < 0:
            return None
        for f in k:
            if not (isinstance(f, Sym) and f.name.startswith("#")):
                return None
    return ok


def ref_truth(I, st, v, node=None):
    o = st.get(v.a)
    if isinstance(o, Inst):
        m = class_attr(I, st, o.cls, "__bool__")
        if m is None or isinstance(m, Bi):
            m = class_attr(I, st, o.cls, "__len__")
        if m is not None and not isinstance(m, Bi):
            res = []
            for s, r in I.call(st, m, [("E", v)], [], node):
                if isinstance(r, Raise):
                    res.append((s, r))
                else:
                    res.extend(truth(I, s, r, node))
            return res
        return [(st, True)]
    if isinstance(o, ListO) and o.kind == "iter":
        return [(st, True)]
    res = []
    for s, b in nonempty(I, st, v.a):
        res.append((s, b))
    return res


def nonempty(I, st, a):
    """-> [(st, bool)] with refinement of definite containers"""
    o = st.get(a)
    if isinstance(o, ListO):
        kinds = [k for k, _, _ in o.segs]
        if "E" in kinds:
            return [(st, True)]
        live = [s for s in o.segs if not (s[2] is not None and eqv(I, st, s[2], C(0)) is True)]
        if not live:
            return [(st, False)]
        if o.summ or any(s[2] is None for s in live):
            st.mark("emptiness")
        a1, a2 = st, st.fork()
        if not o.summ:
            a2.set(a, o.with_(segs=(), shape=None))
            cn = [s[2] for s in live]
            if all(c is not None for c in cn):
                for c in cn:
                    a2.facts[eqkey(c, C(0))] = True
                if len(cn) == 1:
                    a1.facts[eqkey(cn[0], C(0))] = False
        return [(a1, True), (a2, False)]
    if isinstance(o, DictO):
        res = []
        for s in settle(I, st, a):
            oo = s.get(a)
            if any(p == "must" for _, _, p in oo.items):
                res.append((s, True))
            elif not oo.items:
                res.append((s, False))
            else:
                a1, a2 = s, s.ifork("emptiness")
                if not oo.summ:
                    a2.set(a, oo.with_(items=()))
                res += [(a1, True), (a2, False)]
        return res
    if isinstance(o, SetO):
        if any(p == "must" for _, p in o.items):
            return [(st, True)]
        if not o.items:
            return [(st, False)]
        a1, a2 = st, st.ifork("emptiness")
        if not o.summ:
            a2.set(a, o.with_(items=()))
        return [(a1, True), (a2, False)]
    return fork_bool(st)


def len_truth(I, st, v):
    if v.lo > 0:
        return [(st, True)]
    if st.get(v.a) is v.obj or st.get(v.a) == v.obj:
        return nonempty(I, st, v.a)
    return fork_bool(st)


def settle(I, st, a, keys=None):
    """resolve conditional presence (Ch alternatives containing ABSENT) of a dict"""
    o = st.get(a)
    if not isinstance(o, DictO):
        return [st]
    cur = [st]
    for k, v, p in o.items:
        if isinstance(v, Ch) and any(x is ABSENT or isinstance(x, Absent) for _, x in v.alts):
            if keys is not None and k not in keys:
                continue
            nx = []
            for s in cur:
                # group: absent vs present labels
                f = s.facts.get(("ch", v.tok))
                for s2, x in force_presence(I, s, v):
                    oo = s2.get(a)
                    if isinstance(x, Absent):
                        s2.set(a, oo.with_(items=[i for i in oo.items if i[0] != k]))
                    else:
                        s2.set(a, oo.with_(items=[(kk, x if kk == k else vv, pp) for kk, vv, pp in oo.items]))
                    nx.append(s2)
            cur = nx
    return cur


def force_presence(I, st, v):
    f = st.facts.get(("ch", v.tok))
    if f is not None:
        for lab, x in v.alts:
            if lab == f:
                return [(st, x)]
    res = []
    for i, (lab, x) in enumerate(v.alts):
        s = st.fork() if i < len(v.alts) - 1 else st
        s.facts[("ch", v.tok)] = lab
        res.append((s, x))
    return res


# ------------------------------------------------------------------ equality
def eqkey(a, b):
    if repr(a) > repr(b):
        a, b = b, a
    return ("eq", a, b)


def normtypes(t):
    if t is None:
        return None
    return frozenset("num" if x in NUMT else ("set" if x == "frozenset" else x) for x in t)


def strip_cat(a, b):
    """strip equal prefixes/suffixes of two string values. -> (False|None, ra, rb)"""
    pa = list(a.parts) if isinstance(a, Cat) else [a.v if isinstance(a, C) else a]
    pb = list(b.parts) if isinstance(b, Cat) else [b.v if isinstance(b, C) else b]
    pa = [p for p in pa if not (isinstance(p, str) and p == "")]
    pb = [p for p in pb if not (isinstance(p, str) and p == "")]
    for side in (0, 1):
        ix = 0 if side == 0 else -1
        while pa and pb:
            x, y = pa[ix], pb[ix]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                xa, ya = (x[:n], y[:n]) if side == 0 else (x[len(x) - n:], y[len(y) - n:])
                if xa != ya:
                    return False, None, None
                xr, yr = (x[n:], y[n:]) if side == 0 else (x[:len(x) - n], y[:len(y) - n])
                if xr:
                    pa[ix] = xr
                else:
                    pa.pop(ix)
                if yr:
                    pb[ix] = yr
                else:
                    pb.pop(ix)
                continue
            if not isinstance(x, str) and not isinstance(y, str) and x == y and not is_multi(x):
                pa.pop(ix)
                pb.pop(ix)
                continue
            break
    return None, pa, pb


def nochars_conflict(p, s):
    """string value p (a part) can not contain some character of s"""
    if isinstance(p, Sym):
        return any(ch in p.nochars for ch in s)
    if isinstance(p, Term) and p.op == "str" and p.args and types_of_scalar(p.args[0]) is not None and \
            types_of_scalar(p.args[0]) <= NUM:
        return any(ch not in "0123456789-.einfa+" for ch in s)
    if isinstance(p, Top) and p.why == "digits":
        return any(ch not in "0123456789-" for ch in s)
    return False


def streq(I, st, a, b):
    r, pa, pb = strip_cat(a, b)
    if r is False:
        return False
    if not pa and not pb:
        return True
    if not pa or not pb:
        rest = pa or pb
        for p in rest:
            if isinstance(p, str):
                return False
            if isinstance(p, Sym) and p.truth:
                return False
            if isinstance(p, Term) and p.op == "str":
                return False
        return None
    if len(pa) == 1 and len(pb) == 1:
        x, y = pa[0], pb[0]
        if isinstance(x, str) or isinstance(y, str):
            c, o = (x, y) if isinstance(x, str) else (y, x)
            if nochars_conflict(o, c):
                return False
            return scalar_eq(I, st, o, C(c))
        if isinstance(a, Cat) or isinstance(b, Cat):
            return eqv(I, st, x, y)
        return scalar_eq(I, st, x, y)
    # one side is a single opaque part, the other a concatenation with constants
    for x, y in ((pa, pb), (pb, pa)):
        if len(x) == 1 and not isinstance(x[0], str):
            for q in y:
                if isinstance(q, str) and nochars_conflict(x[0], q):
                    return False
    f = st.facts.get(eqkey(mkcat(pa), mkcat(pb)))
    return f


def scalar_eq(I, st, a, b):
    """equality of two scalar values, at least one symbolic; no string structure left"""
    if a == b:
        return None if is_multi(a) else True
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym):
            if isinstance(y, C):
                if y.v in x.ne if _hashable(y.v) else False:
                    return False
                if "*" in x.ne:
                    return False
                if x.truth is not None and bool(y.v) != x.truth:
                    return False
                if isinstance(y.v, str) and any(ch in x.nochars for ch in y.v):
                    return False
            if isinstance(y, Sym) and x.group is not None and x.group == y.group:
                if root_sym(x) != root_sym(y) or apart(x, y):
                    return False
                if x.multi or y.multi:
                    return None
    f = st.facts.get(eqkey(a, b))
    if f is not None:
        return f
    if not is_multi(a) and not is_multi(b):
        # transitive: a == c1 known, b constant different
        for x, y in ((a, b), (b, a)):
            for k, t in st.facts.items():
                if t is True and k[0] == "eq" and (k[1] == x or k[2] == x):
                    o = k[2] if k[1] == x else k[1]
                    if o == y:
                        return True
                    if isinstance(o, C) and isinstance(y, C):
                        return bool(o.v == y.v)
                    if isinstance(o, Sym) and isinstance(y, Sym) and o.group is not None and o.group == y.group:
                        return False
                    if isinstance(o, Sym) and isinstance(y, C) and ("*" in o.ne or y.v in o.ne):
                        return False
    return None


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def eqv(I, st, a, b):
    """True / False / None (unknown). No user-defined __eq__ here."""
    if a is b and not is_multi(a) and not isinstance(a, Ref):
        return True
    if isinstance(a, (Ch, Un)) or isinstance(b, (Ch, Un)):
        rs = {eqv(I, st, x, y) for x in alts(st, a) for y in alts(st, b)}
        if isinstance(a, Ch) and a == b:
            rs2 = {eqv(I, st, x, x) for x in alts(st, a)}
            return True if rs2 == {True} else None
        return rs.pop() if len(rs) == 1 else None
    if isinstance(a, Absent) or isinstance(b, Absent):
        return isinstance(a, Absent) and isinstance(b, Absent)
    if isinstance(a, C) and isinstance(b, C):
        try:
            return bool(a.v == b.v)
        except Exception:
            return False
    if isinstance(a, (Cls, Fn, Bi, Mod)) and isinstance(b, (Cls, Fn, Bi, Mod)):
        return a == b
    if isinstance(a, (Cls, Fn, Mod)) or isinstance(b, (Cls, Fn, Mod)):
        o = b if isinstance(a, (Cls, Fn, Mod)) else a
        if not isinstance(o, Top):
            return False
    if isinstance(a, InstDict) or isinstance(b, InstDict):
        return None
    ta, tb = normtypes(types_of(st, a)), normtypes(types_of(st, b))
    if ta is not None and tb is not None and not (ta & tb):
        return False
    if isinstance(a, Tup) and isinstance(b, Tup):
        if any(k != "E" for k, _, _ in a.segs + b.segs):
            return None
        if len(a.segs) != len(b.segs):
            return False
        unk = False
        for x, y in zip(a.segs, b.segs):
            r = eqv(I, st, x[1], y[1])
            if r is False:
                return False
            unk = unk or r is None
        return None if unk else True
    if isinstance(a, Ref) and isinstance(b, Ref):
        return refeq(I, st, a, b)
    if isinstance(a, Ref) or isinstance(b, Ref):
        o = b if isinstance(a, Ref) else a
        if isinstance(o, (Top,)):
            return None
        if isinstance(o, Sym) and o.types is None:
            return None
        if isinstance(o, Bi) and o.name.startswith("view."):
            return None
        return False
    if isinstance(a, Top) or isinstance(b, Top):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Top) and x.why == "digits" and isinstance(y, (Cat, C)):
                ps = y.parts if isinstance(y, Cat) else [y.v]
                for p in ps:
                    if isinstance(p, str) and any(ch not in "0123456789-" for ch in p):
                        return False
        return None
    if isinstance(a, (Cat,)) or isinstance(b, (Cat,)):
        return streq(I, st, a, b)
    if isinstance(a, Len) or isinstance(b, Len):
        o = b if isinstance(a, Len) else a
        l = a if isinstance(a, Len) else b
        if isinstance(o, C) and o.v < l.lo:
            return False
        return None
    pa, pb = poly_of(a), poly_of(b)
    if pa is not None and pb is not None and (isinstance(a, Poly) or isinstance(b, Poly) or (
            isinstance(a, C) and isinstance(b, C))):
        d = dict(pa)
        for k, c in pb.items():
            d[k] = d.get(k, 0) - c
        d = {k: c for k, c in d.items() if c}
        # substitute known zero counts
        d2 = {}
        for k, c in d.items():
            if any(st.facts.get(eqkey(f, C(0))) is True for f in k):
                continue
            d2[k] = c
        d = d2
        if not d:
            return None if is_multi(a) or is_multi(b) else True
        if list(d) == [()]:
            return False
        if all(isinstance(f, Sym) and f.name.startswith("#") for k in d for f in k):
            cs = [c for k, c in d.items()]
            if d.get((), 0) and (all(c > 0 for c in cs) or all(c < 0 for c in cs)):
                return False
        return st.facts.get(eqkey(a, b))
    if isinstance(a, Idx) or isinstance(b, Idx):
        return idx_eq(I, st, a, b)
    if isinstance(a, (Sym,)) and isinstance(b, (Sym, C)) or isinstance(b, Sym):
        return scalar_eq(I, st, a, b)
    if isinstance(a, Term) or isinstance(b, Term):
        if a == b:
            return None if is_multi(a) else True
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Term) and x.op == "join" and isinstance(y, C) and y.v == "":
                return None
        if isinstance(a, Term) and isinstance(b, Term) and a.op == b.op and len(a.args) == len(b.args) and a.op in ("hash", "int", "int?", "float", "lower", "upper"):
            if all(isinstance(x, Val) and isinstance(y, Val) and eqv(I, st, x, y) is True for x, y in zip(a.args, b.args)):
                return True
        o1 = st.facts.get(("ord", a, b))
        if o1 is not None:
            return o1 == "eq"
        o1 = st.facts.get(("ord", b, a))
        if o1 is not None:
            return o1 == "eq"
        return st.facts.get(eqkey(a, b))
    if a == b and not is_multi(a):
        return True
    if isinstance(a, (Bi, Bound)) or isinstance(b, (Bi, Bound)):
        return None
    return None


def idx_eq(I, st, a, b):
    if a == b:
        return None
    # disjoint ranges?
    def lo(v):
        return v.base if isinstance(v, Idx) else v

    def hi(v):
        if not isinstance(v, Idx):
            return v
        if v.cnt is None:
            return None
        return poly_add(poly_add(poly_of(v.base), poly_of(v.cnt) or {}) and poly_of(poly_add(poly_of(v.base), poly_of(v.cnt))), {(): -1})
    for x, y in ((a, b), (b, a)):
        h = hi(x)
        if h is not None:
            # h < lo(y)  <=> h + 1 <= lo(y)
            if nonneg_le(poly_add(poly_of(h), {(): 1}), lo(y)):
                return False
    return None


def refeq(I, st, a, b):
    oa, ob = st.get(a.a), st.get(b.a)
    if a.a == b.a:
        return None if getattr(oa, "summ", False) else True
    if isinstance(oa, Inst) or isinstance(ob, Inst):
        if isinstance(oa, Inst) and isinstance(ob, Inst):
            if isinstance(oa.cls, Cls) and oa.cls.kind in ("namedtuple", "dataclass") and oa.cls == ob.cls:
                unk = False
                for k in oa.attrs:
                    r = eqv(I, st, oa.attrs[k], ob.attrs.get(k, NONE))
                    if r is False:
                        return False
                    unk = unk or r is None
                return None if unk else True
        return False
    if isinstance(oa, ListO) and isinstance(ob, ListO):
        na = [s for s in oa.segs if not (s[2] is not None and eqv(I, st, s[2], C(0)) is True)]
        nb = [s for s in ob.segs if not (s[2] is not None and eqv(I, st, s[2], C(0)) is True)]
        if all(k == "E" for k, _, _ in na) and all(k == "E" for k, _, _ in nb):
            if len(na) != len(nb):
                return False
            unk = False
            for x, y in zip(na, nb):
                r = eqv(I, st, x[1], y[1])
                if r is False:
                    return False
                unk = unk or r is None
            return None if unk else True
        ea = sum(1 for k, _, _ in na if k == "E")
        eb = sum(1 for k, _, _ in nb if k == "E")
        if (not nb and ea) or (not na and eb):
            return False
        return None
    if isinstance(oa, DictO) and isinstance(ob, DictO):
        if not oa.items and not ob.items:
            return True
        unk = False
        for x, y in ((oa, ob), (ob, oa)):
            for k, v, p in x.items:
                if p != "must":
                    unk = True
                    continue
                if isinstance(v, Ch) and any(isinstance(z, Absent) for _, z in v.alts):
                    if not any(kk == k and vv == v for kk, vv, _ in y.items):
                        unk = True
                    continue
                hit = [(kk, vv, pp) for kk, vv, pp in y.items if eqv(I, st, k, kk) is not False]
                if not hit:
                    return False
                if len(hit) == 1 and hit[0][2] == "must" and eqv(I, st, k, hit[0][0]) is True:
                    r = eqv(I, st, v, hit[0][1])
                    if r is False:
                        return False
                    unk = unk or r is None
                else:
                    unk = True
        return None if unk else True
    if isinstance(oa, SetO) and isinstance(ob, SetO):
        if not oa.items and not ob.items:
            return True
        unk = False
        for x, y in ((oa, ob), (ob, oa)):
            for k, p in x.items:
                if p != "must":
                    unk = True
                    continue
                rs = [eqv(I, st, k, kk) for kk, _ in y.items]
                if all(r is False for r in rs):
                    return False
                if True not in rs:
                    unk = True
                elif any(eqv(I, st, k, kk) is True and pp != "must" for kk, pp in y.items):
                    unk = True
        return None if unk else True
    return False


def eqfork(I, st, a, b, node=None):
    """-> [(st, bool|Raise)]; forks and records"""
    for x, y, sw in ((a, b, False), (b, a, True)):
        if isinstance(x, Ref):
            o = st.get(x.a)
            if isinstance(o, Inst) and not (isinstance(o.cls, Cls) and o.cls.kind in ("enum", "namedtuple", "dataclass")):
                m = class_attr(I, st, o.cls, "__eq__")
                if m is not None and not isinstance(m, Bi):
                    res = []
                    for s, r in I.call(st, m, [("E", x), ("E", y)], [], node, "eq"):
                        if isinstance(r, Raise):
                            res.append((s, r))
                        elif isinstance(r, Bi) and r.name == "NotImplemented":
                            res.append((s, False))
                        else:
                            res.extend(truth(I, s, r, node))
                    return res
    r = eqv(I, st, a, b)
    if r is not None:
        return [(st, r)]
    if isinstance(a, (Ch, Un)) or isinstance(b, (Ch, Un)):
        res = []
        for s, x in force(I, st, a):
            for s2, y in force(I, s, b):
                res.extend(eqfork(I, s2, x, y, node))
        return res
    # comparison with an empty container: refine
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Ref) and isinstance(x, Ref):
            oy = st.get(y.a)
            if isinstance(oy, (ListO, DictO, SetO)) and not getattr(oy, "items", getattr(oy, "segs", None)):
                return [(s, not t) for s, t in nonempty(I, st, x.a)]
        if isinstance(x, Len) and isinstance(y, C) and y.v == 0:
            return [(s, not t) for s, t in len_truth(I, st, x)]
    if isinstance(a, Ref) or isinstance(b, Ref):
        # structural comparison with lazily decided entries
        for x in (a, b):
            if isinstance(x, Ref) and isinstance(st.get(x.a), DictO):
                ss = settle(I, st, x.a)
                if len(ss) > 1 or ss[0].get(x.a) is not st.get(x.a):
                    res = []
                    for s in ss:
                        res.extend(eqfork(I, s, a, b, node))
                    return res
        return fork_bool(st)
    multi = is_multi(a) or is_multi(b)
    if isinstance(a, Cat) or isinstance(b, Cat):
        # record on the stripped remainder so that equal prefixes do not matter
        rr, pa, pb = strip_cat(a, b)
        if rr is None and pa and pb:
            ka, kb = mkcat(pa), mkcat(pb)
            return fork_bool(st, eqkey(ka, kb), multi)
    return fork_bool(st, eqkey(a, b), multi)


# ------------------------------------------------------------------ ordering
def order(I, st, a, b):
    """'lt' 'eq' 'gt' | None"""
    if isinstance(a, C) and isinstance(b, C):
        try:
            return "lt" if a.v < b.v else ("eq" if a.v == b.v else "gt")
        except TypeError:
            return "err"
    e = eqv(I, st, a, b)
    if e is True:
        return "eq"
    f = st.facts.get(("ord", a, b))
    if f:
        return f
    f = st.facts.get(("ord", b, a))
    if f:
        return {"lt": "gt", "gt": "lt", "eq": "eq"}[f]
    pa, pb = poly_of(a), poly_of(b)
    if pa is not None and pb is not None:
        if nonneg_le(poly_add(pa, {(): 1}), b):
            return "lt"
        if nonneg_le(poly_add(pb, {(): 1}), a):
            return "gt"
        r = lex_order(I, st, pa, pb)
        if r:
            return r
    if isinstance(a, Idx) or isinstance(b, Idx):
        def rng(v):
            if isinstance(v, Idx):
                return v.base, (poly_add(poly_of(v.base), poly_of(v.cnt)) if v.cnt is not None else None)
            p = poly_of(v)
            return (v, poly_add(p, {(): 1})) if p is not None else (None, None)
        la, ha = rng(a)
        lb, hb = rng(b)
        if ha is not None and lb is not None and nonneg_le(ha, lb):
            return "lt"
        if hb is not None and la is not None and nonneg_le(hb, la):
            return "gt"
    return None


def lex_order(I, st, pa, pb):
    """difference of weighted sums c1*x1 + c2*x2 + ... with decreasing weights (>= 1000 apart):
    decided by the first differing component, given recorded component orders."""
    fa = {k[0]: c for k, c in pa.items() if len(k) == 1}
    fb = {k[0]: c for k, c in pb.items() if len(k) == 1}
    if len(fa) != len([k for k in pa if k]) or len(fb) != len([k for k in pb if k]):
        return None
    if not fa or not fb or sorted(fa.values()) != sorted(fb.values()):
        return None
    ws = sorted(fa.values(), reverse=True)
    if any(w <= 0 for w in ws) or any(x / y < 100 for x, y in zip(ws, ws[1:])) or len(set(ws)) != len(ws):
        return None
    if pa.get((), 0) != pb.get((), 0) or (ws == [1] and not pa.get((), 0)):
        return None
    for w in ws:
        x = [k for k, c in fa.items() if c == w][0]
        y = [k for k, c in fb.items() if c == w][0]
        o = order(I, st, x, y)
        if o is None:
            return None
        if o != "eq":
            return o
    return "eq"


OPN = {ast.Lt: ("lt",), ast.LtE: ("lt", "eq"), ast.Gt: ("gt",), ast.GtE: ("gt", "eq")}
DUNDER = {ast.Lt: ("__lt__", "__gt__"), ast.Gt: ("__gt__", "__lt__"), ast.LtE: ("__le__", "__ge__"), ast.GtE: ("__ge__", "__le__")}


def compare(I, st, op, a, b, node):
    if isinstance(op, ast.Eq):
        return eqfork_user(I, st, a, b, node, False)
    if isinstance(op, ast.NotEq):
        return eqfork_user(I, st, a, b, node, True)
    if isinstance(op, (ast.Is, ast.IsNot)):
        neg = isinstance(op, ast.IsNot)
        return [(s, r if isinstance(r, Raise) else (r != neg)) for s, r in identity(I, st, a, b, node)]
    if isinstance(op, (ast.In, ast.NotIn)):
        neg = isinstance(op, ast.NotIn)
        return [(s, r if isinstance(r, Raise) else (r != neg)) for s, r in contains(I, st, b, a, node)]
    return order_cmp(I, st, op.__class__, a, b, node)


def eqfork_user(I, st, a, b, node, neg):
    if neg:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref):
                o = st.get(x.a)
                if isinstance(o, Inst) and isinstance(o.cls, Cls) and o.cls.kind == "class":
                    m = class_attr(I, st, o.cls, "__ne__")
                    if m is not None and not isinstance(m, Bi):
                        res = []
                        for s, r in I.call(st, m, [("E", x), ("E", y)], [], node, "ne"):
                            if isinstance(r, Raise):
                                res.append((s, r))
                            else:
                                res.extend(truth(I, s, r, node))
                        return res
    return [(s, r if isinstance(r, Raise) else (r != neg)) for s, r in eqfork(I, st, a, b, node)]


def identity(I, st, a, b, node):
    if isinstance(b, C) and (b.v is None or isinstance(b.v, bool)) or isinstance(a, C) and (a.v is None or isinstance(a.v, bool)):
        c, o = (b, a) if isinstance(b, C) and (b.v is None or isinstance(b.v, bool)) else (a, b)
        if isinstance(o, C):
            return [(st, o.v is c.v)]
        t = types_of(st, o)
        want = "none" if c.v is None else "bool"
        if t is not None and want not in t:
            return [(st, False)]
        if isinstance(o, (Ref, Tup, Fn, Cls, Bi, Bound, InstDict, Mod)):
            return [(st, False)]
        if isinstance(o, Top):
            return fork_bool(st)
        return fork_bool(st, ("is", o, c), is_multi(o))
    if isinstance(a, C) and isinstance(b, C):
        if isinstance(a.v, str) and isinstance(b.v, str) and a.v == b.v:
            I.idnote.add(I.where(node))
            return [(st, True)]
        return [(st, a == b)]
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.a == b.a:
            o = st.get(a.a)
            if getattr(o, "summ", False):
                return fork_bool(st)
            return [(st, True)]
        return [(st, False)]
    if isinstance(a, (Cls, Fn, Bi, Mod)) and isinstance(b, (Cls, Fn, Bi, Mod)):
        return [(st, a == b)]
    if isinstance(a, (Sym, Cat, Term)) and a == b and not is_multi(a):
        I.idnote.add(I.where(node))
        return [(st, True)]
    if isinstance(a, (Sym, Cat, Term, C)) and isinstance(b, (Sym, Cat, Term, C)):
        if eqv(I, st, a, b) is False:
            return [(st, False)]
        I.idnote.add(I.where(node))
        return fork_bool(st)
    if isinstance(a, Top) or isinstance(b, Top):
        return fork_bool(st)
    return [(st, False)]


def order_cmp(I, st, opc, a, b, node):
    # user-defined
    for x, y, d in ((a, b, DUNDER[opc][0]), (b, a, DUNDER[opc][1])):
        if isinstance(x, Ref):
            o = st.get(x.a)
            if isinstance(o, Inst) and isinstance(o.cls, Cls):
                m = class_attr(I, st, o.cls, d)
                if m is not None and not isinstance(m, Bi):
                    res = []
                    for s, r in I.call(st, m, [("E", x), ("E", y)], [], node, d):
                        if isinstance(r, Raise):
                            res.append((s, r))
                        elif isinstance(r, Bi) and r.name == "NotImplemented":
                            return I.implicit(st, "TypeError", node, "unorderable")
                        else:
                            res.extend(truth(I, s, r, node))
                    return res
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.get(a.a), SetO) and isinstance(st.get(b.a), SetO):
        return set_cmp(I, st, opc, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(st.get(a.a), ListO) and isinstance(st.get(b.a), ListO):
        a, b = Tup(st.get(a.a).segs), Tup(st.get(b.a).segs)
    if isinstance(a, Tup) and isinstance(b, Tup):
        return tup_cmp(I, st, opc, a, b, node)
    if isinstance(a, Len) or isinstance(b, Len):
        r = len_cmp(I, st, opc, a, b)
        if r is not None:
            return r
    for x in (a, b):
        if isinstance(x, C) and x.v is None:
            return I.implicit(st, "TypeError", node, "ordering with None")
    o = order(I, st, a, b)
    if o == "err":
        return I.implicit(st, "TypeError", node, "unorderable")
    if o is not None:
        return [(st, o in OPN[opc])]
    if is_multi(a) or is_multi(b):
        return fork_bool(st)
    res = []
    e = eqv(I, st, a, b)
    cands = [x for x in ("lt", "eq", "gt") if not (x == "eq" and e is False)]
    for i, x in enumerate(cands):
        s = st.fork() if i < len(cands) - 1 else st
        s.facts[("ord", a, b)] = x
        if x == "eq":
            s.facts[eqkey(a, b)] = True
        else:
            s.facts[eqkey(a, b)] = False
        res.append((s, x in OPN[opc]))
    return res


def len_cmp(I, st, opc, a, b):
    """len(x) compared with a constant"""
    if isinstance(a, Len) and isinstance(b, C) and isinstance(b.v, (int, float)):
        l, k, neg = a, b.v, opc
    elif isinstance(b, Len) and isinstance(a, C) and isinstance(a.v, (int, float)):
        l, k = b, a.v
        neg = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[opc]
    else:
        return None
    if neg is ast.Gt and k == 0 or neg is ast.GtE and k == 1:
        return len_truth(I, st, l)
    if neg is ast.Lt and k == 1 or neg is ast.LtE and k == 0:
        return [(s, not t) for s, t in len_truth(I, st, l)]
    if neg is ast.Gt and l.lo > k or neg is ast.GtE and l.lo >= k:
        return [(st, True)]
    if neg is ast.Lt and l.lo >= k or neg is ast.LtE and l.lo > k:
        return [(st, False)]
    return fork_bool(st)


def tup_cmp(I, st, opc, a, b, node):
    if any(k != "E" for k, _, _ in a.segs + b.segs):
        return fork_bool(st)
    xs, ys = [v for _, v, _ in a.segs], [v for _, v, _ in b.segs]
    strict = ast.Lt if opc in (ast.Lt, ast.LtE) else ast.Gt
    res = []
    cur = [st]
    for x, y in zip(xs, ys):
        nx = []
        for s in cur:
            for s1, fx in force(I, s, x):
                for s2, fy in force(I, s1, y):
                    for s3, e in eqfork_user(I, s2, fx, fy, node, False):
                        if isinstance(e, Raise):
                            res.append((s3, e))
                        elif e:
                            nx.append(s3)
                        else:
                            res.extend(order_cmp(I, s3, strict, fx, fy, node))
        cur = nx
    for s in cur:
        n = (len(xs) > len(ys)) - (len(xs) < len(ys))
        res.append((s, {ast.Lt: n < 0, ast.LtE: n <= 0, ast.Gt: n > 0, ast.GtE: n >= 0}[opc]))
    return res


def set_cmp(I, st, opc, a, b):
    if opc in (ast.Gt, ast.GtE):
        a, b = b, a
        opc = ast.Lt if opc is ast.Gt else ast.LtE
    oa, ob = st.get(a.a), st.get(b.a)
    sub = True
    for k, p in oa.items:
        rs = [(eqv(I, st, k, kk), pp) for kk, pp in ob.items]
        if any(r is True and pp == "must" for r, pp in rs):
            continue
        if p == "must" and all(r is False for r, _ in rs):
            return [(st, False)]
        sub = None
    if sub and opc is ast.LtE:
        return [(st, True)]
    if sub:
        e = refeq(I, st, a, b)
        if e is not None:
            return [(st, not e)]
    return fork_bool(st)


# ------------------------------------------------------------------ containment
def contains(I, st, cont, v, node):
    res = []
    for s, c in force(I, st, cont):
        for s2, x in force(I, s, v):
            res.extend(contains1(I, s2, c, x, node))
    return res


def contains1(I, st, c, v, node):
    if isinstance(c, Tup):
        return seg_contains(I, st, c.segs, v, node, None)
    if isinstance(c, InstDict):
        o = st.get(c.a)
        if isinstance(v, C):
            if o.summ:
                return [(st, v.v in o.attrs)]
            return [(st, v.v in o.attrs)]
        return seg_contains(I, st, tuple(("E", C(k), None) for k in o.attrs if not k.startswith("$")), v, node, None)
    if isinstance(c, Bi) and c.name.startswith("view."):
        base = c.self_
        if c.name == "view.keys":
            return contains1(I, st, base, v, node)
        res = []
        for s, g in iter_segs(I, st, c, node):
            if isinstance(g, Raise):
                res.append((s, g))
            else:
                res.extend(seg_contains(I, s, g[0], v, node, None))
        return res
    if isinstance(c, Ref):
        o = st.get(c.a)
        if isinstance(o, ListO):
            return seg_contains(I, st, o.segs, v, node, c.a)
        if isinstance(o, DictO):
            return dict_contains(I, st, c.a, v, node)
        if isinstance(o, SetO):
            return set_contains(I, st, c.a, v, node)
        if isinstance(o, Inst):
            m = class_attr(I, st, o.cls, "__contains__")
            if m is not None and not isinstance(m, Bi):
                res = []
                for s, r in I.call(st, m, [("E", c), ("E", v)], [], node):
                    res.extend([(s, r)] if isinstance(r, Raise) else truth(I, s, r, node))
                return res
            res = []
            for s, g in iter_segs(I, st, c, node):
                if isinstance(g, Raise):
                    res.append((s, g))
                else:
                    res.extend(seg_contains(I, s, g[0], v, node, None))
            return res
    if isinstance(c, C) and c.v is None:
        return I.implicit(st, "TypeError", node, "argument of type None is not iterable")
    if isinstance(c, Cls) and c.kind == "enum":
        return [(st, any(x == v for x in lib.enum_members(I, st, c)))]
    if isinstance(c, (C, Sym, Cat, Term)):
        return str_contains(I, st, c, v, node)
    return fork_bool(st)


def str_contains(I, st, c, v, node):
    if isinstance(c, C) and isinstance(v, C):
        try:
            return [(st, v.v in c.v)]
        except TypeError:
            return I.implicit(st, "TypeError", node, "in")
    if isinstance(v, C) and isinstance(v.v, str):
        if v.v == "":
            return [(st, True)]
        parts = c.parts if isinstance(c, Cat) else [c]
        if any(isinstance(p, str) and v.v in p for p in parts):
            return [(st, True)]
        if all((isinstance(p, str) and not any(ch in p for ch in v.v)) or (not isinstance(p, str) and nochars_conflict(p, v.v[0]) and all(nochars_conflict(p, ch) for ch in v.v)) for p in parts):
            return [(st, False)]
    return fork_bool(st, ("in", v, c), is_multi(v) or is_multi(c))


def seg_contains(I, st, segs, v, node, a):
    res = []
    cur = [st]
    for k, x, cnt in segs:
        nx = []
        for s in cur:
            if k == "E":
                for s2, xx in force(I, s, x):
                    for s3, e in eqfork(I, s2, xx, v, node):
                        if isinstance(e, Raise) or e:
                            res.append((s3, e))
                        else:
                            nx.append(s3)
            else:
                rs = set()
                for xx in alts(s, x):
                    rs.add(eqv_user(I, s, xx, v))
                if rs == {False}:
                    nx.append(s)
                else:
                    res.append((s.ifork("membership"), True))
                    nx.append(s)
        cur = nx
    return res + [(s, False) for s in cur]


def eqv_user(I, st, a, b):
    for x in (a, b):
        if isinstance(x, Ref):
            o = st.get(x.a)
            if isinstance(o, Inst) and isinstance(o.cls, Cls) and o.cls.kind == "class":
                m = class_attr(I, st, o.cls, "__eq__")
                if m is not None and not isinstance(m, Bi):
                    try:
                        r = {q for _, q in eqfork(I, st.fork(), a, b, None)}
                    except Exception:
                        return None
                    return r.pop() if len(r) == 1 and not isinstance(next(iter(r)), Raise) else None
    return eqv(I, st, a, b)


def user_hash(I, st, x):
    if isinstance(x, Ref):
        o = st.get(x.a)
        if isinstance(o, Inst) and isinstance(o.cls, Cls) and o.cls.kind == "class":
            h = class_attr(I, st, o.cls, "__hash__")
            return h is not None and not isinstance(h, Bi)
    return False


def keyfork(I, st, a, b, node):
    """are a and b the same dictionary key? (equal hashes and equal) -> [(st, bool|Raise)]"""
    if not (user_hash(I, st, a) and user_hash(I, st, b)):
        return eqfork(I, st, a, b, node)
    if a == b:
        return [(st, True)]
    res = []
    for s, h1 in lib.do_hash(I, st, a, node):
        if isinstance(h1, Raise):
            res.append((s, h1))
            continue
        for s2, h2 in lib.do_hash(I, s, b, node):
            if isinstance(h2, Raise):
                res.append((s2, h2))
                continue
            if isinstance(h1, Term) and isinstance(h2, Term) and h1.op == h2.op == "hash":
                fk = eqfork(I, s2, h1.args[0], h2.args[0], node)
            else:
                fk = eqfork(I, s2, h1, h2, node)
            for s3, e in fk:
                if isinstance(e, Raise) or not e:
                    res.append((s3, e))
                else:
                    res += eqfork(I, s3, a, b, node)
    return res


def keyv(I, st, a, b):
    if not (user_hash(I, st, a) and user_hash(I, st, b)):
        return eqv_user(I, st, a, b)
    if a == b:
        return True
    try:
        r = {x for _, x in keyfork(I, st.fork(), a, b, None)}
    except Exception:
        return None
    x = r.pop() if len(r) == 1 else None
    return x if isinstance(x, bool) else None


def dict_contains(I, st, a, v, node):
    res = []
    for s in settle(I, st, a, None if is_multi(v) else {k for k, _, _ in st.get(a).items if keyv(I, st, k, v) is not False}):
        o = s.get(a)
        cur = [s]
        for k, x, p in o.items:
            nx = []
            for t in cur:
                r = keyv(I, t, k, v)
                if r is False:
                    nx.append(t)
                elif p == "must" and r is True or p == "all" and gen(v) == k:
                    res.append((t, True))
                elif p == "must" and not is_multi(k) and not is_multi(v):
                    for t2, e in keyfork(I, t, k, v, node):
                        if isinstance(e, Raise):
                            res.append((t2, e))
                        elif e:
                            res.append((t2, True))
                        else:
                            nx.append(t2)
                else:
                    t2 = t.ifork("membership")
                    if p == "may" and r is True and not o.summ:
                        t.set(a, t.get(a).with_(items=[(kk, vv, "must" if kk == k else pp) for kk, vv, pp in o.items]))
                        t2.set(a, t2.get(a).with_(items=[i for i in o.items if i[0] != k]))
                    res.append((t, True))
                    nx.append(t2)
            cur = nx
        res += [(t, False) for t in cur]
    return res


def set_contains(I, st, a, v, node):
    o = st.get(a)
    res = []
    cur = [st]
    for k, p in o.items:
        nx = []
        for t in cur:
            r = keyv(I, t, k, v)
            if r is False:
                nx.append(t)
            elif p == "must" and r is True or p == "all" and gen(v) == k:
                res.append((t, True))
            elif p == "must" and not is_multi(k) and not is_multi(v):
                for t2, e in keyfork(I, t, k, v, node):
                    if isinstance(e, Raise) or e:
                        res.append((t2, e))
                    else:
                        nx.append(t2)
            else:
                t2 = t.ifork("membership")
                if p == "may" and r is True and not o.summ:
                    t.set(a, o.with_(items=[(kk, "must" if kk == k else pp) for kk, pp in o.items]))
                    t2.set(a, o.with_(items=[i for i in o.items if i[0] != k]))
                res.append((t, True))
                nx.append(t2)
        cur = nx
    return res + [(t, False) for t in cur]


# ------------------------------------------------------------------ attributes
def mro(I, cls):
    if cls.mro is not None:
        return cls.mro
    # C3
    seqs = [list(mro(I, b)) if isinstance(b, Cls) else [b] for b in cls.bases] + [list(cls.bases)]
    out = [cls]
    while True:
        seqs = [s for s in seqs if s]
        if not seqs:
            break
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            c = seqs[0][0]
        out.append(c)
        for s in seqs:
            if s and s[0] == c:
                s.pop(0)
    cls.mro = out
    return out


def class_attr(I, st, cls, name, after=None):
    """raw class attribute along the MRO; Bi for inherited builtin slots"""
    if isinstance(cls, Bi):
        return lib.bi_class_attr(cls, name)
    seq = mro(I, cls)
    if after is not None and after in seq:
        seq = seq[seq.index(after) + 1:]
    for c in seq:
        if isinstance(c, Cls):
            v = st.get(c.a).attrs.get(name)
            if v is not None:
                return v
        else:
            v = lib.bi_class_attr(c, name)
            if v is not None:
                return v
    return None


def is_sub(I, st, c, target):
    if isinstance(c, Cls):
        for k in mro(I, c):
            if k == target:
                return True
            if isinstance(k, Bi) and isinstance(target, Bi) and lib.exc_sub(k.name, target.name):
                return True
        return isinstance(target, Bi) and target.name == "object"
    if isinstance(c, Bi) and isinstance(target, Bi):
        if target.name == "object":
            return True
        return lib.exc_sub(c.name, target.name) or (c.name, target.name) == ("bool", "int")
    return False


def getattr_(I, st, v, name, node, default=None):
    """-> [(st, Val|Raise)]"""
    if isinstance(v, (Ch, Un)):
        res = []
        for s, x in force(I, st, v):
            if isinstance(v, Un) and isinstance(x, C) and x.v is None and default is None:
                continue  # imprecise None alternative
            res.extend(getattr_(I, s, x, name, node, default))
        return res
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, Inst):
            return inst_attr(I, st, v, o, name, node, default)
        kind = lib.kind_name(o)
        if isinstance(o, SetO) and name == "__class__":
            return [(st, Bi(kind))]
        if name == "__class__":
            return [(st, Bi(kind))]
        if lib.has_method(kind, name):
            return [(st, Bi(kind + "." + name, v))]
    elif isinstance(v, Cls):
        return cls_getattr(I, st, v, name, node, default)
    elif isinstance(v, Mod):
        x = st.get(v.frame).vars.get(name)
        if x is not None:
            return [(st, x)]
        m = I.modules.get(v.name + "." + name)
        if m is not None:
            return [(st, m)]
    elif isinstance(v, SuperV):
        return super_attr(I, st, v, name, node)
    elif isinstance(v, Bi):
        r = lib.bi_attr(I, st, v, name)
        if r is not None:
            return [(st, r)]
    elif isinstance(v, InstDict):
        if lib.has_method("dict", name):
            return [(st, Bi("dict." + name, v))]
    elif isinstance(v, Tup):
        if name in ("count", "index"):
            return [(st, Bi("tuple." + name, v))]
        if name == "__class__":
            return [(st, Bi("tuple"))]
    elif isinstance(v, C):
        if v.v is None:
            if default is not None:
                return [(st, default)]
            if name == "__class__":
                return [(st, Bi("NoneType"))]
            return I.implicit(st, "AttributeError", node, "None has no attribute %s" % name)
        if name == "__class__":
            return [(st, Bi(type(v.v).__name__))]
        if hasattr(v.v, name):
            if callable(getattr(v.v, name)):
                return [(st, Bi("%s.%s" % (type(v.v).__name__, name), v))]
            return [(st, C(getattr(v.v, name)))]
    elif isinstance(v, (Sym, Cat, Term, Poly, Idx, Len, Top)):
        t = types_of(st, v)
        if name == "__class__":
            if t is not None and len(t) == 1:
                return [(st, Bi(next(iter(t))))]
            return [(st, Top(None, "class"))]
        if isinstance(v, Term) and v.op in lib.TERM_ATTR:
            return lib.term_attr(I, st, v, name, node)
        if t is not None and t <= frozenset(["str"]):
            if hasattr(str, name):
                return [(st, Bi("str." + name, v))]
        elif t is not None and t <= NUM | frozenset(["bool"]):
            if hasattr(float, name) or hasattr(int, name):
                return [(st, Bi("float." + name, v))]
        elif isinstance(v, Sym) and t is None and hasattr(str, name):
            return [(st, Bi("str." + name, v))]
        else:
            return [(st, Top(None, "attr of unknown"))]
    elif isinstance(v, (Fn, Bound, Wrapped)):
        f = v.fn if isinstance(v, (Bound, Wrapped)) else v
        if name in ("__name__", "__qualname__"):
            return [(st, C(f.info.qual.rsplit(".", 1)[-1] if isinstance(f, Fn) else "f"))]
        if name in ("__doc__", "__module__"):
            return [(st, C(""))]
        if name == "__func__":
            return [(st, f)]
        if name == "__wrapped__":
            return [(st, f)]
        if isinstance(v, Wrapped) and name in ("setter", "getter", "deleter"):
            return [(st, Bi("property." + name, v))]
        w = v.fn if isinstance(v, Bound) else v
        if isinstance(w, Wrapped) and w.kind == "cached" and name == "cache_clear":
            return [(st, Bi("dict.clear", w.setter))]
    if default is not None:
        return [(st, default)]
    return I.implicit(st, "AttributeError", node, "%r has no attribute %s" % (v, name))


def bindv(I, st, raw, self_, cls, node, name=None):
    """descriptor protocol -> [(st, val)]"""
    if isinstance(raw, Fn):
        return [(st, Bound(self_, raw))]
    if isinstance(raw, Wrapped):
        if raw.kind == "staticmethod":
            return [(st, raw.fn)]
        if raw.kind == "classmethod":
            return [(st, Bound(cls, raw.fn))]
        if raw.kind == "property":
            return I.call(st, raw.fn, [("E", self_)], [], node, "prop")
        if raw.kind == "cached_property":
            res = []
            for s, x in I.call(st, raw.fn, [("E", self_)], [], node, "prop"):
                if isinstance(x, Raise):
                    res.append((s, x))
                    continue
                s.tmps = s.tmps + (x,)
                for s2, e in setattr_(I, s, self_, name, x, node):
                    s2.tmps = s2.tmps[:-1]
                    res.append((s2, e if isinstance(e, Raise) else x))
            return res
        if raw.kind == "cached":
            return [(st, Bound(self_, raw))]
    if isinstance(raw, Bi) and raw.name.startswith(("object.", "exc.")):
        return [(st, Bi(raw.name, self_))]
    if isinstance(raw, Bi) and raw.name == "partialmethod":
        return [(st, Bound(self_, raw.extra[0]))]
    return [(st, raw)]


def inst_attr(I, st, v, o, name, node, default=None):
    if name == "__dict__":
        return [(st, InstDict(v.a))]
    if name == "__class__":
        return [(st, o.cls)]
    raw = class_attr(I, st, o.cls, name)
    if isinstance(raw, Wrapped) and raw.kind == "property":
        return I.call(st, raw.fn, [("E", v)], [], node, "prop")
    x = o.attrs.get(name)
    if x is not None:
        if isinstance(x, Ch) and any(isinstance(y, Absent) for _, y in x.alts):
            res = []
            for s, y in force_presence(I, st, x):
                if isinstance(y, Absent):
                    res += [(s, default)] if default is not None else I.implicit(s, "AttributeError", node, name)
                else:
                    res.append((s, y))
            return res
        return [(st, x)]
    if raw is not None:
        return bindv(I, st, raw, v, o.cls, node, name)
    if isinstance(o.cls, Bi):
        r = lib.biobj_attr(I, st, v, o, name, node)
        if r is not None:
            return r
    if isinstance(o.cls, Cls) and o.cls.kind == "namedtuple":
        if name in ("_replace", "_asdict", "index", "count"):
            return [(st, Bi("namedtuple." + name, v))]
        if name == "_fields":
            return [(st, tup(*[C(f) for f in o.cls.fields]))]
    ga = class_attr(I, st, o.cls, "__getattr__")
    if ga is not None and not isinstance(ga, Bi):
        return I.call(st, ga, [("E", v), ("E", C(name))], [], node)
    if default is not None:
        return [(st, default)]
    return I.implicit(st, "AttributeError", node, "%s has no attribute %s" % (o.cls, name))


def cls_getattr(I, st, v, name, node, default=None):
    if name in ("__name__", "__qualname__"):
        return [(st, C(v.name))]
    if name == "__mro__":
        return [(st, tup(*mro(I, v)))]
    if name == "__class__":
        return [(st, Bi("type"))]
    if name == "__dict__":
        return [(st, I.alloc(st, node or "clsdict", DictO([(C(k), x, "must") for k, x in st.get(v.a).attrs.items()])))]
    if name == "__bases__":
        return [(st, tup(*v.bases))]
    if name == "__module__":
        return [(st, C(v.qual.rsplit(".", 1)[0]))]
    if v.kind == "enum" and name in ("__members__",):
        ms = lib.enum_members(I, st, v)
        return [(st, I.alloc(st, node or "members", DictO([(st.get(m.a).attrs["name"], m, "must") for m in ms])))]
    if name == "mro":
        return [(st, Bi("cls.mro", v))]
    if name == "__subclasses__":
        return [(st, Bi("cls.subclasses", v))]
    raw = class_attr(I, st, v, name)
    if raw is None:
        if v.kind == "namedtuple" and name == "_fields":
            return [(st, tup(*[C(f) for f in v.fields]))]
        if v.kind == "namedtuple" and name == "_make":
            return [(st, Bi("namedtuple._make", v))]
        if default is not None:
            return [(st, default)]
        return I.implicit(st, "AttributeError", node, "%s has no attribute %s" % (v, name))
    if isinstance(raw, Wrapped):
        if raw.kind == "staticmethod":
            return [(st, raw.fn)]
        if raw.kind == "classmethod":
            return [(st, Bound(v, raw.fn))]
        return [(st, raw)]
    return [(st, raw)]


def super_attr(I, st, v, name, node):
    s_ = v.self_
    if isinstance(s_, Cls):
        cls = s_
    else:
        o = st.get(s_.a)
        cls = o.cls
    raw = class_attr(I, st, cls, name, after=v.cls)
    if raw is None:
        return I.implicit(st, "AttributeError", node, "super has no " + name)
    if isinstance(raw, Fn) and name == "__new__":
        return [(st, raw)]
    if isinstance(s_, Cls):
        if isinstance(raw, Wrapped) and raw.kind == "classmethod":
            return [(st, Bound(s_, raw.fn))]
        if isinstance(raw, Wrapped):
            return [(st, raw.fn)]
        return [(st, raw)]
    return bindv(I, st, raw, s_, cls, node)


def setattr_(I, st, ob, name, v, node):
    """-> [(st, None|Raise)]"""
    if isinstance(ob, (Ch, Un)):
        res = []
        for s, x in force(I, st, ob):
            res.extend(setattr_(I, s, x, name, v, node))
        return res
    if isinstance(ob, Ref):
        o = st.get(ob.a)
        if isinstance(o, Inst):
            raw = class_attr(I, st, o.cls, name)
            if isinstance(raw, Wrapped) and raw.kind == "property":
                if raw.setter is None:
                    return I.implicit(st, "AttributeError", node, "no setter for " + name)
                return [(s, r if isinstance(r, Raise) else None) for s, r in I.call(st, raw.setter, [("E", ob), ("E", v)], [], node, "set")]
            sa = class_attr(I, st, o.cls, "__setattr__")
            if sa is not None and not isinstance(sa, Bi):
                return [(s, r if isinstance(r, Raise) else None) for s, r in I.call(st, sa, [("E", ob), ("E", C(name)), ("E", v)], [], node)]
            return raw_setattr(I, st, ob, name, v, node)
    if isinstance(ob, Cls):
        o = st.get(ob.a)
        d = dict(o.attrs)
        d[name] = v
        st.set(ob.a, ClsO(d))
        return [(st, None)]
    if isinstance(ob, Mod):
        st.set(ob.frame, st.get(ob.frame).set(name, v))
        return [(st, None)]
    if isinstance(ob, C) and ob.v is None:
        return [(s, r) for s, r in I.implicit(st, "AttributeError", node, "None has no attribute %s" % name)]
    if isinstance(ob, (Fn, Bound, Wrapped)):
        return [(st, None)]
    I.note("attribute assignment on %r" % (ob,), node)
    return [(st, None)]


def raw_setattr(I, st, ob, name, v, node):
    o = st.get(ob.a)
    if o.cls is not None and isinstance(o.cls, Cls) and o.cls.kind == "namedtuple":
        return I.implicit(st, "AttributeError", node, "can't set attribute")
    d = dict(o.attrs)
    if o.summ and name in d:
        try:
            d[name] = joinv(d[name], v, st, st, weak=True, widen=True)
        except Hard:
            d[name] = mkun([d[name], v])
    else:
        d[name] = v
    st.set(ob.a, o.with_(attrs=d))
    return [(st, None)]


def delattr_(I, st, ob, name, node):
    if isinstance(ob, Ref):
        o = st.get(ob.a)
        if isinstance(o, Inst):
            if name not in o.attrs:
                return I.implicit(st, "AttributeError", node, name)
            if not o.summ:
                d = dict(o.attrs)
                del d[name]
                st.set(ob.a, o.with_(attrs=d))
            return [(st, None)]
    return [(st, None)]


# ------------------------------------------------------------------ sequences
def prefix(segs, p):
    """number of elements before segment p as a value, or None"""
    acc = {(): 0}
    for k, _, c in segs[:p]:
        if k == "E":
            acc = poly_of(poly_add(acc, {(): 1})) or {(): 0}
        elif k == "R" and c is not None:
            acc = poly_of(poly_add(acc, poly_of(c)))
        else:
            return None
    return mkpoly(acc)


def seg_len(st, segs):
    return prefix(segs, len(segs))


def view_segs(I, st, v, node):
    """segments of dict views -> [(st, (segs, None, None))]"""
    base = v.self_
    what = v.name[5:]
    res = []
    for s, g in dict_segs(I, st, base, node):
        if isinstance(g, Raise):
            res.append((s, g))
            continue
        out = []
        for k, kk, vv, cnt in g:
            out.append((k, kk if what == "keys" else vv if what == "values" else tup(kk, vv), cnt))
        res.append((s, (tuple(out), None, None)))
    return res


def dict_segs(I, st, base, node):
    if isinstance(base, InstDict):
        o = st.get(base.a)
        return [(st, [("E", C(k), v, None) for k, v in o.attrs.items()])]
    res = []
    for s in settle(I, st, base.a):
        o = s.get(base.a)
        out = []
        for k, v, p in o.items:
            out.append(({"must": "E", "may": "M", "star": "R", "all": "R"}[p], k, v, own_count(k) if p == "all" else None))
        res.append((s, out))
    return res


def iter_segs(I, st, v, node):
    """-> [(st, (segs, src_addr|None, None) | Raise)]"""
    if isinstance(v, (Ch, Un)):
        res = []
        for s, x in force(I, st, v):
            if isinstance(v, Un) and isinstance(x, C) and x.v is None:
                continue
            res.extend(iter_segs(I, s, x, node))
        return res
    if isinstance(v, Tup):
        return [(st, (v.segs, None, None))]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, ListO):
            if o.kind == "iter":
                segs = o.segs
                if not o.summ:
                    st.set(v.a, o.with_(segs=()))
                return [(st, (segs, None, None))]
            return [(st, (o.segs, v.a if not o.summ else None, None))]
        if isinstance(o, DictO):
            return view_segs(I, st, Bi("view.keys", v), node)
        if isinstance(o, SetO):
            out = [({"must": "E", "may": "M", "star": "R", "all": "R"}[p], k, own_count(k) if p == "all" else None) for k, p in o.items]
            if ("set order",) in st.facts:
                out.reverse()
            return [(st, (tuple(out), None, "unord" if len(out) > 1 or any(k != "E" for k, _, _ in out) else None))]
        if isinstance(o, Inst):
            if isinstance(o.cls, Cls) and o.cls.kind == "namedtuple":
                return [(st, (tuple(("E", o.attrs[f], None) for f in o.cls.fields), None, None))]
            m = class_attr(I, st, o.cls, "__iter__")
            if m is not None and not isinstance(m, Bi):
                res = []
                for s, r in I.call(st, m, [("E", v)], [], node):
                    if isinstance(r, Raise):
                        res.append((s, r))
                    else:
                        res.extend(iter_segs(I, s, r, node))
                return res
            if isinstance(o.cls, Bi) and o.cls.name == "file":
                return [(st, ((("R", Top(frozenset(["str"])), None),), None, None))]
            return I.implicit(st, "TypeError", node, "%s not iterable" % (o.cls,))
    if isinstance(v, Bi) and v.name.startswith("view."):
        return view_segs(I, st, v, node)
    if isinstance(v, InstDict):
        return view_segs(I, st, Bi("view.keys", v), node)
    if isinstance(v, C):
        if isinstance(v.v, str):
            return [(st, (tuple(("E", C(ch), None) for ch in v.v), None, None))]
        if isinstance(v.v, (bytes, range, tuple)):
            return [(st, (tuple(("E", C(ch), None) for ch in v.v), None, None))]
        return I.implicit(st, "TypeError", node, "%r not iterable" % (v.v,))
    if isinstance(v, Cls) and v.kind == "enum":
        return [(st, (tuple(("E", m, None) for m in lib.enum_members(I, st, v)), None, None))]
    if isinstance(v, Bi) and v.name == "range":
        return lib.range_segs(I, st, v, node)
    if isinstance(v, (Sym, Cat, Term, Poly, Idx, Len)):
        t = types_of(st, v)
        if t is not None and t <= NUMT | frozenset(["none"]):
            return I.implicit(st, "TypeError", node, "number not iterable")
        return [(st, ((("R", Top(frozenset(["str"])), None),), None, None))]
    if isinstance(v, Fn) or isinstance(v, Cls):
        return I.implicit(st, "TypeError", node, "not iterable")
    I.note("iteration over unknown %r" % (v,), node)
    return [(st, ((("R", Top(None, "elem"), None),), None, None))]


def unpack(I, st, v, targets, node):
    """-> [(st, [vals] | Raise)]"""
    res = []
    n = len(targets)
    star = [i for i, t in enumerate(targets) if isinstance(t, ast.Starred)]
    for s, g in iter_segs(I, st, v, node):
        if isinstance(g, Raise):
            res.append((s, g))
            continue
        segs = g[0]
        if all(k == "E" for k, _, _ in segs):
            xs = [x for _, x, _ in segs]
            if star:
                i = star[0]
                if len(xs) < n - 1:
                    res += I.implicit(s, "ValueError", node, "unpack")
                    continue
                tail = n - 1 - i
                mid = xs[i: len(xs) - tail]
                lst = I.alloc(s, node, ListO([("E", x, None) for x in mid]), "star")
                res.append((s, xs[:i] + [lst] + xs[len(xs) - tail:]))
            elif len(xs) != n:
                res += I.implicit(s, "ValueError", node, "unpack %d values into %d" % (len(xs), n))
            else:
                res.append((s, xs))
        else:
            I.note("unpacking a sequence of unknown length", node)
            allv = mkun([x for _, x, _ in segs])
            res.append((s, [allv] * n))
    return res


def list_append(I, st, ref, v, node):
    o = st.get(ref.a)
    if o.summ:
        st.set(ref.a, o.with_(segs=weak_extend(o.segs, v, st), shape=None))
    else:
        st.set(ref.a, o.with_(segs=o.segs + (("E", v, None),), shape=None))
    return [(st, NONE)]


def weak_extend(segs, v, st):
    vs = [x for _, x, _ in segs] + [v]
    return (("R", mkun(vs), None),)


def list_extend(I, st, ref, v, node):
    res = []
    for s, g in iter_segs(I, st, v, node):
        if isinstance(g, Raise):
            res.append((s, g))
            continue
        o = s.get(ref.a)
        unord = o.unord or g[2] == "unord" or lib.is_unord(s, v)
        if o.summ:
            segs = o.segs
            for _, x, _ in g[0]:
                segs = weak_extend(segs, x, s)
        else:
            segs = tuple(norm_segs(list(o.segs) + list(g[0])))
        s.set(ref.a, o.with_(segs=segs, shape=None, unord=unord))
        res.append((s, NONE))
    return res


def list_insert(I, st, ref, i, v, node):
    o = st.get(ref.a)
    segs = list(o.segs)
    if o.summ:
        st.set(ref.a, o.with_(segs=weak_extend(o.segs, v, st)))
        return [(st, NONE)]
    if isinstance(i, C) and all(k == "E" for k, _, _ in segs):
        idx = list(range(len(segs)))
        segs.insert(i.v, ("E", v, None))
        st.set(ref.a, o.with_(segs=segs, shape=None))
        return [(st, NONE)]
    if isinstance(i, C) and i.v == 0:
        st.set(ref.a, o.with_(segs=[("E", v, None)] + segs, shape=None))
        return [(st, NONE)]
    for p in range(len(segs) + 1):
        pf = prefix(segs, p)
        if pf is not None and eqv(I, st, pf, i) is True:
            segs.insert(p, ("E", v, None))
            st.set(ref.a, o.with_(segs=segs, shape=None))
            return [(st, NONE)]
    st.set(ref.a, o.with_(segs=[("R", mkun([x for _, x, _ in segs] + [v]), None)], shape=None))
    return [(st, NONE)]


def find_seg(I, st, segs, i):
    """segment index selected by index value i, or None"""
    if isinstance(i, C) and isinstance(i.v, int):
        n = i.v
        if n >= 0:
            for p, (k, _, _) in enumerate(segs):
                if k != "E":
                    break
                if p == n:
                    return p
            else:
                return -1
        else:
            for q in range(1, len(segs) + 1):
                if segs[-q][0] != "E":
                    break
                if q == -n:
                    return len(segs) - q
            else:
                return -1
    for p, (k, _, c) in enumerate(segs):
        pf = prefix(segs, p)
        if pf is None:
            break
        if k == "E" and eqv(I, st, pf, i) is True:
            return p
        if k == "R" and isinstance(i, Idx) and c is not None and i.cnt == c and eqv(I, st, pf, i.base) is True:
            return p
    # negative constants with counted segments: from the end
    return None


def set_from_segs(I, st, segs, node, frozen, extra=None):
    r = I.alloc(st, node, SetO((), frozen), extra)
    cur = [(st, r)]
    for k, v, cnt in segs:
        nx = []
        for s, rr in cur:
            for s2, x in force(I, s, v):
                for s3, q in set_add(I, s2, r, x, node, "all" if k == "R" and owned_by(v, cnt) else {"E": "must", "M": "may", "R": "star"}[k]):
                    nx.append((s3, q if isinstance(q, Raise) else r))
        cur = [c for c in nx]
        bad = [c for c in cur if isinstance(c[1], Raise)]
        if bad:
            return bad + [c for c in cur if not isinstance(c[1], Raise)]
    return cur


def hash_check(I, st, v, node):
    """-> None or Raise for unhashable keys / broken __hash__"""
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, (ListO, DictO)) or isinstance(o, SetO) and not o.frozen:
            return Raise("TypeError", (), False, I.where(node), None, "unhashable")
    return None


def set_add(I, st, ref, v, node, pres="must"):
    bad = hash_check(I, st, v, node)
    if bad:
        return [(st, bad)]
    if isinstance(v, Ref):
        o0 = st.get(v.a)
        if isinstance(o0, Inst) and isinstance(o0.cls, Cls) and o0.cls.kind == "class":
            h = class_attr(I, st, o0.cls, "__hash__")
            if h is not None and not isinstance(h, Bi):
                res = []
                for s, r in lib.do_hash(I, st, v, node):
                    if isinstance(r, Raise):
                        res.append((s, r))
                    else:
                        res.extend(set_add2(I, s, ref, v, node, pres))
                return res
    return set_add2(I, st, ref, v, node, pres)


def set_add2(I, st, ref, v, node, pres):
    o = st.get(ref.a)
    if is_multi(v) and pres == "must":
        pres = "must" if False else "star"
        single = True
    if weakv(v, st) and pres == "must":
        pres = "star"
    if o.summ and pres == "must":
        pres = "may"
    items = list(o.items)
    cur = [(st, None)]
    for i, (k, p) in enumerate(items):
        if k == v:
            if pres == "all" and p in ("star", "may"):
                items[i] = (k, "all")
                st.set(ref.a, o.with_(items=items))
                return [(st, NONE)]
            if p == pres or p in ("must", "star", "all"):
                return [(st, NONE)]
            if p == "may" and pres == "must":
                items[i] = (k, "must")
                st.set(ref.a, o.with_(items=items))
                return [(st, NONE)]
            return [(st, NONE)]
    # an equal key may already be there under another name
    if pres == "must":
        for i, (k, p) in enumerate(items):
            r = keyv(I, st, k, v)
            if r is True:
                if p == "must":
                    return [(st, NONE)]
    items.append((v, pres))
    st.set(ref.a, o.with_(items=items))
    return [(st, NONE)]


# ------------------------------------------------------------------ items
def getitem(I, st, b, k, node):
    if isinstance(b, Ref):
        o = st.get(b.a)
        if isinstance(o, DictO):
            return dict_get(I, st, b, k, node, None)
        if isinstance(o, ListO):
            return list_get(I, st, o.segs, k, node, o.kind)
        if isinstance(o, Inst):
            if isinstance(o.cls, Cls) and o.cls.kind == "namedtuple":
                return list_get(I, st, tuple(("E", o.attrs[f], None) for f in o.cls.fields), k, node, "tuple")
            m = class_attr(I, st, o.cls, "__getitem__")
            if m is not None and not isinstance(m, Bi):
                return I.call(st, m, [("E", b), ("E", k)], [], node)
            if isinstance(o.cls, Bi) and o.cls.name == "re.Match":
                return [(st, Top(frozenset(["str"])))]
            return I.implicit(st, "TypeError", node, "%s is not subscriptable" % (o.cls,))
        return I.implicit(st, "TypeError", node, "not subscriptable")
    if isinstance(b, InstDict):
        o = st.get(b.a)
        if isinstance(k, C):
            if k.v in o.attrs:
                return [(st, o.attrs[k.v])]
            return I.implicit(st, "KeyError", node, repr(k.v))
        return [(st, mkun(list(o.attrs.values())) if o.attrs else Top())]
    if isinstance(b, Tup):
        return list_get(I, st, b.segs, k, node, "tuple")
    if isinstance(b, Cls):
        if b.kind == "enum":
            if isinstance(k, C):
                for m in lib.enum_members(I, st, b):
                    if st.get(m.a).attrs["name"] == k:
                        return [(st, m)]
                return I.implicit(st, "KeyError", node, repr(k.v))
            return [(st, mkun(lib.enum_members(I, st, b)))]
        return [(st, b)]  # generics
    if isinstance(b, Bi):
        if b.name == "slice":
            return [(st, Top())]
        if b.name.startswith("view."):
            return I.implicit(st, "TypeError", node, "view is not subscriptable")
        if b.name == "defaultdict_factory":
            return [(st, Top())]
        if b.name == "os.environ":
            return [(st, Top(frozenset(["str"]), "env"))]
        return [(st, b)]  # typing generics: List[int]
    if isinstance(b, C):
        if isinstance(k, C):
            try:
                r = b.v[k.v]
                return [(st, C(r))]
            except (IndexError, KeyError, TypeError) as e:
                return I.implicit(st, type(e).__name__, node, str(e))
        if isinstance(b.v, str):
            return [(st, Top(frozenset(["str"])))]
        return I.implicit(st, "TypeError", node, "%r is not subscriptable" % (b.v,))
    t = types_of(st, b)
    if t is not None and t <= frozenset(["str"]):
        return [(st, Term("char", (b, k), frozenset(["str"])) if isinstance(k, C) else Top(frozenset(["str"])))]
    if t is not None and not (t & frozenset(["str", "list", "dict", "tuple"])):
        return I.implicit(st, "TypeError", node, "not subscriptable")
    return [(st, Top(None, "item"))]


def list_get(I, st, segs, k, node, kind):
    if isinstance(k, Bi) and k.name == "slice":
        return getslice_segs(I, st, segs, k.extra, node, kind)
    if any(c is not None and eqv(I, st, c, C(0)) is True for _, _, c in segs):
        segs = tuple(s for s in segs if not (s[2] is not None and eqv(I, st, s[2], C(0)) is True))
    p = find_seg(I, st, segs, k)
    if p == -1:
        return I.implicit(st, "IndexError", node, "index out of range")
    if p is not None:
        return [(st, segs[p][1])]
    if not segs:
        return I.implicit(st, "IndexError", node, "index into empty list")
    if isinstance(k, C) and not isinstance(k.v, int):
        return I.implicit(st, "TypeError", node, "bad index")
    if isinstance(k, C) and k.v in (0, -1):
        # candidates up to the first certain element
        cand = []
        for s in (segs if k.v == 0 else reversed(segs)):
            cand.append(s[1])
            if s[0] == "E":
                break
        return [(st, mkun(cand))]
    return [(st, mkun([s[1] for s in segs]))]


def getslice(I, st, b, sl, node):
    if isinstance(b, C):
        if all(isinstance(x, C) for x in sl):
            return [(st, C(b.v[slice(*[x.v for x in sl])]))]
        return [(st, Top(frozenset(["str"])))]
    if isinstance(b, Ref):
        o = st.get(b.a)
        if isinstance(o, ListO):
            return getslice_segs(I, st, o.segs, sl, node, "list")
        if isinstance(o, Inst) and isinstance(o.cls, Cls):
            m = class_attr(I, st, o.cls, "__getitem__")
            if m is not None and not isinstance(m, Bi):
                return I.call(st, m, [("E", b), ("E", Bi("slice", None, tuple(sl)))], [], node)
    if isinstance(b, Tup):
        return getslice_segs(I, st, b.segs, sl, node, "tuple")
    if isinstance(b, (Sym, Cat, Term)):
        return [(st, str_slice(I, st, b, sl))]
    return [(st, Top(None, "slice"))]


def str_slice(I, st, b, sl):
    lo, hi, step = sl
    if step == NONE or step == C(1):
        parts = list(b.parts) if isinstance(b, Cat) else [b]
        lov = 0 if lo == NONE else lo.v if isinstance(lo, C) else None
        hiv = None if hi == NONE else hi.v if isinstance(hi, C) else "?"
        # x[: -len(suffix)] / x[len(prefix):] / x[:len(x)-n]
        if isinstance(hi, Poly) or isinstance(hi, Term):
            full = strlen(I, st, b)
            if full is not None:
                d = poly_add(poly_of(hi), poly_of(full), -1)
                if isinstance(d, C):
                    hiv = d.v if d.v != 0 else None
        if isinstance(lov, int) and lov >= 0 and (hiv is None or isinstance(hiv, int)):
            p = parts
            ok = True
            if lov:
                if isinstance(p[0], str) and len(p[0]) >= lov:
                    p = [p[0][lov:]] + p[1:]
                else:
                    ok = False
            if ok and isinstance(hiv, int):
                if hiv < 0:
                    if isinstance(p[-1], str) and len(p[-1]) >= -hiv:
                        p = p[:-1] + [p[-1][:hiv]]
                    else:
                        ok = False
                else:
                    n = hiv - lov
                    if isinstance(p[0], str) and len(p[0]) >= n:
                        p = [p[0][:n]]
                    else:
                        ok = False
            if ok:
                return mkcat(p)
        if isinstance(lov, int) and lov < 0 and hiv is None:
            if isinstance(parts[-1], str) and len(parts[-1]) >= -lov:
                return C(parts[-1][lov:])
    if all(isinstance(x, (C, Poly, Term)) for x in sl):
        return Term("strslice", (b,) + tuple(sl), frozenset(["str"]))
    return Top(frozenset(["str"]))


def strlen(I, st, b):
    parts = b.parts if isinstance(b, Cat) else [b.v if isinstance(b, C) else b]
    acc = {(): 0}
    for p in parts:
        if isinstance(p, str):
            acc = poly_of(poly_add(acc, {(): len(p)}))
        else:
            acc = poly_of(poly_add(acc, {(Term("strlen", (p,), frozenset(["int"])),): 1}))
    return mkpoly(acc)


def getslice_segs(I, st, segs, sl, node, kind):
    lo, hi, step = sl

    def mk(s, g):
        if kind == "tuple":
            return Tup(g)
        return I.alloc(s, node, ListO(g), "slice")
    if lo == NONE and hi == NONE:
        if step in (NONE, C(1)):
            return [(st, mk(st, segs))]
        if step == C(-1):
            return [(st, mk(st, tuple(reversed(segs))))]
    if all(k == "E" for k, _, _ in segs) and all(isinstance(x, C) for x in sl):
        return [(st, mk(st, segs[slice(*[x.v for x in sl])]))]
    if step in (NONE, C(1)) and isinstance(lo, C) and isinstance(hi, C):
        l = lo.v or 0
        if hi.v is None and l >= 0 and all(k == "E" for k, _, _ in segs[:l]) and len(segs) >= l:
            return [(st, mk(st, segs[l:]))]
        if l == 0 and hi.v is not None and hi.v < 0 and len(segs) >= -hi.v and all(k == "E" for k, _, _ in segs[hi.v:]):
            return [(st, mk(st, segs[:hi.v]))]
        if l == 0 and hi.v is not None and hi.v >= 0 and len(segs) >= hi.v and all(k == "E" for k, _, _ in segs[:hi.v]):
            return [(st, mk(st, segs[:hi.v]))]
    if step in (NONE, C(1)):
        # symbolic bounds on segment borders
        def border(x, d):
            if x == NONE:
                return d
            for p in range(len(segs) + 1):
                pf = prefix(segs, p)
                if pf is not None and eqv(I, st, pf, x) is True:
                    return p
            return None
        a, b = border(lo, 0), border(hi, len(segs))
        if a is not None and b is not None:
            return [(st, mk(st, segs[a:b]))]
    if not segs:
        return [(st, mk(st, ()))]
    return [(st, mk(st, (("R", mkun([v for _, v, _ in segs]), None),)))]


def dict_get(I, st, ref, k, node, default, missing="raise"):
    """d[k] (default None) or d.get(k, default). -> [(st, Val|Raise)]"""
    if isinstance(ref, InstDict):
        o = st.get(ref.a)
        if isinstance(k, C):
            if k.v in o.attrs:
                return [(st, o.attrs[k.v])]
            return [(st, default)] if default is not None else I.implicit(st, "KeyError", node, repr(k))
        return [(st, mkun(list(o.attrs.values()) + ([default] if default is not None else [])))]
    a = ref.a
    o = st.get(a)
    bad = hash_check(I, st, k, node)
    if bad:
        return [(st, bad)]
    res = []
    lazy = []
    multi = is_multi(k)
    cur = [st]
    for kk, v, p in o.items:
        nx = []
        for s in cur:
            r = keyv(I, s, kk, k)
            if r is False:
                nx.append(s)
                continue
            if p == "all" and gen(k) == kk:
                res.append((s, mkun(lazy + [v])))
                continue
            if isinstance(v, Ch) and any(isinstance(x, Absent) for _, x in v.alts) and p == "must" and r is True:
                if default is not None:
                    # stay lazy: a conditional value with the default for the absent case
                    f = s.facts.get(("ch", v.tok))
                    if f is not None:
                        x = dict(v.alts)[f]
                        res.append((s, default if isinstance(x, Absent) else x))
                    else:
                        res.append((s, Ch(v.tok, tuple((lab, default if isinstance(x, Absent) else x) for lab, x in v.alts))))
                else:
                    for s2, x in force_presence(I, s, v):
                        if isinstance(x, Absent):
                            nx.append(s2)
                        else:
                            res.append((s2, x))
                continue
            if p == "must" and r is True:
                res.append((s, v))
                continue
            if p == "must" and not multi and not is_multi(kk):
                for s2, e in keyfork(I, s, kk, k, node):
                    if isinstance(e, Raise):
                        res.append((s2, e))
                    elif e:
                        res.append((s2, v))
                    else:
                        nx.append(s2)
                continue
            # star / may / multi key: possible match
            lazy.append(v)
            if p == "may" and r is True and not multi:
                if default is not None or getattr(o, "summ", False):
                    res.append((s, mkun([v] + ([default] if default is not None else []))))
                else:
                    res.append((s, v))
                continue
            nx.append(s)
        cur = nx
    for s in cur:
        if lazy:
            vals = list(lazy)
            if default is not None:
                vals.append(default)
            elif I.maybe(s, "KeyError"):
                res.append((s.ifork("lookup"), Raise("KeyError", (), False, I.where(node), None, repr(k))))
            res.append((s, mkun(vals)))
        elif default is not None:
            res.append((s, default))
        elif o.factory is not None and missing == "raise":
            for s2, v in I.call(s, o.factory, [], [], node, "factory"):
                if isinstance(v, Raise):
                    res.append((s2, v))
                else:
                    for s3, _ in setitem(I, s2, ref, k, v, node):
                        res.append((s3, v))
        else:
            res += I.implicit(s, "KeyError", node, repr(k))
    if o.kind == "Counter" and default is None:
        res = [(s, C(0)) if isinstance(v, Raise) and v.excname() == "KeyError" else (s, v) for s, v in res]
    return res


def setitem(I, st, b, k, v, node):
    """-> [(st, None|Raise)]"""
    if isinstance(b, InstDict):
        if isinstance(k, C):
            return raw_setattr(I, st, Ref(b.a), k.v, v, node)
        o = st.get(b.a)
        st.set(b.a, o.with_(attrs={n: mkun([x, v]) for n, x in o.attrs.items()}))
        I.note("unknown key into __dict__", node)
        return [(st, None)]
    if isinstance(b, Ref):
        o = st.get(b.a)
        if isinstance(o, DictO):
            return dict_set(I, st, b, k, v, node)
        if isinstance(o, ListO):
            return list_set(I, st, b, k, v, node)
        if isinstance(o, Inst):
            m = class_attr(I, st, o.cls, "__setitem__")
            if m is not None and not isinstance(m, Bi):
                return [(s, r if isinstance(r, Raise) else None) for s, r in I.call(st, m, [("E", b), ("E", k), ("E", v)], [], node)]
    if isinstance(b, C):
        return I.implicit(st, "TypeError", node, "%r does not support item assignment" % (b.v,))
    if isinstance(b, Bi) and b.name == "os.environ":
        st.note_eff("environ", k)
        return [(st, None)]
    I.note("item assignment on %r" % (b,), node)
    return [(st, None)]


def list_set(I, st, b, k, v, node):
    o = st.get(b.a)
    segs = list(o.segs)
    if isinstance(k, Bi) and k.name == "slice":
        lo, hi, stp = k.extra
        res = []
        for s, g in iter_segs(I, st, v, node):
            if isinstance(g, Raise):
                res.append((s, g))
                continue
            oo = s.get(b.a)
            if lo == NONE and hi == NONE:
                s.set(b.a, oo.with_(segs=g[0], shape=None))
            elif all(x[0] == "E" for x in oo.segs) and all(isinstance(x, C) for x in k.extra):
                l = list(oo.segs)
                l[slice(*[x.v for x in k.extra])] = list(g[0])
                s.set(b.a, oo.with_(segs=l, shape=None))
            else:
                s.set(b.a, oo.with_(segs=[("R", mkun([x for _, x, _ in list(oo.segs) + list(g[0])]), None)], shape=None))
            res.append((s, None))
        return res
    p = find_seg(I, st, tuple(segs), k)
    if p == -1:
        return I.implicit(st, "IndexError", node, "assignment index out of range")
    if p is not None and segs[p][0] == "E" and not o.summ:
        segs[p] = ("E", v, None)
    elif p is not None:
        segs[p] = (segs[p][0], mkun([segs[p][1], v]), segs[p][2])
    else:
        segs = [(kk, mkun([x, v]), c) for kk, x, c in segs]
    st.set(b.a, o.with_(segs=segs))
    return [(st, None)]


def dict_set(I, st, ref, k, v, node):
    bad = hash_check(I, st, k, node)
    if bad:
        return [(st, bad)]
    if isinstance(k, Ref):
        o0 = st.get(k.a)
        if isinstance(o0, Inst) and isinstance(o0.cls, Cls) and o0.cls.kind == "class":
            h = class_attr(I, st, o0.cls, "__hash__")
            if h is not None and not isinstance(h, Bi):
                rr = lib.do_hash(I, st, k, node)
                badr = [x for x in rr if isinstance(x[1], Raise)]
                if badr:
                    return badr
                st = rr[0][0]
    a = ref.a
    o = st.get(a)
    items = list(o.items)
    if is_multi(k) or weakv(k, st):
        for i, (kk, vv, p) in enumerate(items):
            if kk == k:
                items[i] = (kk, jw(vv, v, st), p if p == "all" else "star")
                break
        else:
            items.append((k, v, "star"))
            # other star entries possibly equal keep their values
        st.set(a, o.with_(items=items))
        return [(st, None)]
    res = []
    cur = [st]
    for i, (kk, vv, p) in enumerate(items):
        if p in STARS or is_multi(kk):
            continue
        nx = []
        for s in cur:
            r = keyv(I, s, kk, k)
            if r is False:
                nx.append(s)
                continue
            forks = [(s, True)] if r is True else keyfork(I, s, kk, k, node)
            for s2, e in forks:
                if isinstance(e, Raise):
                    res.append((s2, e))
                elif e:
                    oo = s2.get(a)
                    it = list(oo.items)
                    j = [n for n, x in enumerate(it) if x[0] == kk][0]
                    if oo.summ:
                        it[j] = (kk, jw(it[j][1], v, s2), it[j][2])
                    else:
                        it[j] = (kk, v, "must")
                    s2.set(a, oo.with_(items=it))
                    res.append((s2, None))
                else:
                    nx.append(s2)
        cur = nx
    for s in cur:
        oo = s.get(a)
        s.set(a, oo.with_(items=list(oo.items) + [(k, v, "may" if oo.summ else "must")]))
        res.append((s, None))
    return res


def jw(a, b, st):
    try:
        return joinv(a, b, st, st, weak=True, widen=True)
    except Hard:
        return mkun([a, b])


def delitem(I, st, b, k, node):
    if isinstance(b, InstDict):
        if isinstance(k, C):
            return delattr_(I, st, Ref(b.a), k.v, node)
        return [(st, None)]
    if isinstance(b, Ref):
        o = st.get(b.a)
        if isinstance(o, DictO):
            return [(s, r if isinstance(r, Raise) else None) for s, r in dict_pop(I, st, b, k, node, None)]
        if isinstance(o, ListO):
            if isinstance(k, Bi) and k.name == "slice":
                if k.extra[0] == NONE and k.extra[1] == NONE:
                    st.set(b.a, o.with_(segs=(), shape=None))
                    return [(st, None)]
                if all(x[0] == "E" for x in o.segs) and all(isinstance(x, C) for x in k.extra):
                    l = list(o.segs)
                    del l[slice(*[x.v for x in k.extra])]
                    st.set(b.a, o.with_(segs=l, shape=None))
                    return [(st, None)]
                I.note("slice deletion", node)
                return [(st, None)]
            return [(s, r if isinstance(r, Raise) else None) for s, r in list_pop(I, st, b, k, node)]
        if isinstance(o, Inst):
            m = class_attr(I, st, o.cls, "__delitem__")
            if m is not None and not isinstance(m, Bi):
                return [(s, r if isinstance(r, Raise) else None) for s, r in I.call(st, m, [("E", b), ("E", k)], [], node)]
    I.note("item deletion on %r" % (b,), node)
    return [(st, None)]


def list_pop(I, st, b, k, node):
    o = st.get(b.a)
    segs = o.segs
    if not segs:
        return I.implicit(st, "IndexError", node, "pop from empty list")
    if o.summ:
        return [(st, mkun([v for _, v, _ in segs]))]
    p = find_seg(I, st, segs, k)
    if p == -1:
        return I.implicit(st, "IndexError", node, "pop index out of range")
    if p is not None:
        kind, v, c = segs[p]
        if kind == "E":
            st.set(b.a, o.with_(segs=segs[:p] + segs[p + 1:], shape=None))
        else:
            st.set(b.a, o.with_(segs=segs[:p] + ((kind, v, None),) + segs[p + 1:], shape=None))
        return [(st, v)]
    if isinstance(k, C) and k.v in (-1, 0):
        # last/first: either from the summary border segments or the next certain element
        res = []
        idxs = range(len(segs) - 1, -1, -1) if k.v == -1 else range(len(segs))
        done = False
        skipped = []
        for i in idxs:
            kind, v, c = segs[i]
            s = st.ifork("pop")
            rest = [x for j, x in enumerate(segs) if j not in skipped]
            if kind == "E":
                s.set(b.a, o.with_(segs=[x for j, x in enumerate(segs) if j not in skipped and j != i], shape=None))
                res.append((s, v))
                done = True
                break
            s.set(b.a, o.with_(segs=[(x[0], x[1], None if j == i else x[2]) for j, x in enumerate(segs) if j not in skipped], shape=None))
            res.append((s, v))
            skipped.append(i)
        return res
    st.set(b.a, o.with_(segs=[("R", mkun([v for _, v, _ in segs]), None)], shape=None))
    return [(st, mkun([v for _, v, _ in segs]))]


def dict_pop(I, st, ref, k, node, default):
    """-> [(st, val|Raise)]"""
    if isinstance(ref, InstDict):
        o = st.get(ref.a)
        if isinstance(k, C) and k.v in o.attrs:
            v = o.attrs[k.v]
            delattr_(I, st, Ref(ref.a), k.v, node)
            return [(st, v)]
        return [(st, default)] if default is not None else I.implicit(st, "KeyError", node, repr(k))
    a = ref.a
    res = []
    multi = is_multi(k)
    o0 = st.get(a)
    for st1 in settle(I, st, a, {kk for kk, _, _ in o0.items if eqv(I, st, kk, k) is not False}):
        cur = [st1]
        lazy = []
        for kk, v, p in st1.get(a).items:
            nx = []
            for s in cur:
                r = eqv_user(I, s, kk, k)
                if r is False:
                    nx.append(s)
                    continue
                if not multi and not is_multi(kk) and p in ("must", "may"):
                    forks = [(s, True)] if r is True else eqfork(I, s, kk, k, node)
                    for s2, e in forks:
                        if isinstance(e, Raise):
                            res.append((s2, e))
                        elif e:
                            oo = s2.get(a)
                            if p == "may" and default is not None:
                                s3 = s2.ifork("pop")
                                s3.set(a, oo.with_(items=[i for i in oo.items if i[0] != kk]))
                                res.append((s3, default))
                            if oo.summ:
                                s2.set(a, oo.with_(items=[(x, y, "may" if x == kk else z) for x, y, z in oo.items]))
                            else:
                                s2.set(a, oo.with_(items=[i for i in oo.items if i[0] != kk]))
                            res.append((s2, v))
                        else:
                            nx.append(s2)
                    continue
                if p == "all":
                    oo = s.get(a)
                    s.set(a, oo.with_(items=[(x, y, "star" if x == kk else z) for x, y, z in oo.items]))
                    if gen(k) == kk:
                        res.append((s, mkun(lazy + [v])))
                        continue
                lazy.append(v)
                # multi key against a definite entry: unknown whether that one goes
                if multi and p == "must" and not is_multi(kk):
                    s2 = s.ifork("pop")
                    oo = s2.get(a)
                    s2.set(a, oo.with_(items=[i for i in oo.items if i[0] != kk]))
                    res.append((s2, v))
                nx.append(s)
            cur = nx
        for s in cur:
            if lazy:
                res.append((s, mkun(lazy + ([default] if default is not None else []))))
            elif default is not None:
                res.append((s, default))
            else:
                res += I.implicit(s, "KeyError", node, "%r" % (k,))
    return res


def dict_update(I, st, ref, other, node):
    """-> [(st, None|Raise)]"""
    res = []
    for s0, ov in force(I, st, other):
        if isinstance(ov, Ref) and isinstance(s0.get(ov.a), DictO) or isinstance(ov, InstDict):
            for s, g in dict_segs(I, s0, ov, node):
                cur = [(s, None)]
                for kind, k, v, cnt in g:
                    nx = []
                    for s2, r in cur:
                        if isinstance(r, Raise):
                            nx.append((s2, r))
                            continue
                        if kind == "R" and cnt is not None and is_multi(k) and isinstance(ref, Ref) and isinstance(s2.get(ref.a), DictO) and not any(
                                eqv(I, s2, k, x) is not False for x, _, _ in s2.get(ref.a).items):
                            oo = s2.get(ref.a)
                            s2.set(ref.a, oo.with_(items=list(oo.items) + [(k, v, "all")]))
                            nx.append((s2, None))
                            continue
                        if kind == "E":
                            nx.extend(setitem(I, s2, ref, k, v, node))
                        else:
                            if kind == "M" and not is_multi(k):
                                s3 = s2.ifork("update")
                                nx.append((s3, None))
                                nx.extend(setitem(I, s2, ref, k, v, node))
                            else:
                                nx.extend(setitem(I, s2, ref, k, v, node))
                    cur = nx
                res += cur
        else:
            for s, g in iter_segs(I, s0, ov, node):
                if isinstance(g, Raise):
                    res.append((s, g))
                    continue
                cur = [(s, None)]
                for kind, x, cnt in g[0]:
                    nx = []
                    for s2, r in cur:
                        if isinstance(r, Raise):
                            nx.append((s2, r))
                            continue
                        for s3, kv in unpack(I, s2, x, [0, 0], node):
                            if isinstance(kv, Raise):
                                nx.append((s3, kv))
                                continue
                            for s4, kk in force(I, s3, kv[0]):
                                if kind == "R" and cnt is not None and is_multi(kk) and cnt == own_count(kk) and isinstance(ref, Ref) and isinstance(s4.get(ref.a), DictO) and not any(
                                        eqv(I, s4, kk, y) is not False for y, _, _ in s4.get(ref.a).items):
                                    oo = s4.get(ref.a)
                                    s4.set(ref.a, oo.with_(items=list(oo.items) + [(kk, kv[1], "all")]))
                                    nx.append((s4, None))
                                    continue
                                if kind != "E" and not is_multi(kk):
                                    nx.append((s4.ifork("update"), None))
                                nx.extend(setitem(I, s4, ref, kk, kv[1], node))
                    cur = nx
                res += cur
    return res


# ------------------------------------------------------------------ arithmetic
PYOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
}
OPDUNDER = {ast.Add: "__add__", ast.Sub: "__sub__", ast.Mult: "__mul__", ast.BitOr: "__or__", ast.BitAnd: "__and__",
            ast.Div: "__truediv__", ast.Mod: "__mod__", ast.BitXor: "__xor__"}


def unary(I, st, op, v):
    if isinstance(v, C):
        try:
            return C({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](v.v))
        except TypeError:
            return Top()
    if isinstance(op, ast.USub):
        p = poly_of(v)
        if p is not None:
            return poly_mul(p, {(): -1})
    if isinstance(op, ast.UAdd):
        return v
    return Top(NUM)


def is_str(st, v):
    t = types_of(st, v)
    return t is not None and t <= frozenset(["str"])


def binop(I, st, op, a, b, node):
    t = type(op)
    if isinstance(a, C) and isinstance(b, C):
        if t is ast.Mod and isinstance(a.v, str):
            try:
                return [(st, C(a.v % b.v))]
            except (TypeError, ValueError) as e:
                return I.implicit(st, type(e).__name__, node, str(e))
        try:
            return [(st, C(PYOPS[t](a.v, b.v)))]
        except Exception as e:
            return I.implicit(st, type(e).__name__, node, str(e))
    ra = st.get(a.a) if isinstance(a, Ref) else None
    rb = st.get(b.a) if isinstance(b, Ref) else None
    if isinstance(ra, Inst) and isinstance(ra.cls, Cls):
        m = class_attr(I, st, ra.cls, OPDUNDER.get(t, "?"))
        if m is not None and not isinstance(m, Bi):
            return I.call(st, m, [("E", a), ("E", b)], [], node)
    if isinstance(rb, Inst) and isinstance(rb.cls, Cls):
        m = class_attr(I, st, rb.cls, OPDUNDER.get(t, "?").replace("__", "__r", 1))
        if m is not None and not isinstance(m, Bi):
            return I.call(st, m, [("E", b), ("E", a)], [], node)
    # sets (and dict views)
    sa, sb = as_set(st, a), as_set(st, b)
    if sa is not None and sb is not None and t in (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor):
        return set_op(I, st, t, a, sa, b, sb, node)
    if isinstance(ra, DictO) and isinstance(rb, DictO) and t is ast.BitOr:
        r = I.alloc(st, node, ra.with_(summ=False), "dictor")
        return [(s, x if isinstance(x, Raise) else r) for s, x in dict_update(I, st, r, b, node)]
    if isinstance(ra, ListO) and isinstance(rb, ListO) and t is ast.Add:
        r = I.alloc(st, node, ListO(norm_segs(list(ra.segs) + list(rb.segs)), "list", None, False, 0, ra.unord or rb.unord), "add")
        return [(st, r)]
    if t is ast.Mult and isinstance(ra, ListO) and isinstance(b, C) or t is ast.Mult and isinstance(rb, ListO) and isinstance(a, C):
        l, n = (ra, b) if isinstance(ra, ListO) else (rb, a)
        return [(st, I.alloc(st, node, ListO(l.segs * n.v), "mul"))]
    if isinstance(a, Tup) and isinstance(b, Tup) and t is ast.Add:
        return [(st, Tup(a.segs + b.segs))]
    if t is ast.Mod and is_str(st, a):
        return lib.percent(I, st, a, b, node)
    if t is ast.Add and (is_str(st, a) or is_str(st, b)):
        tb = types_of(st, b if is_str(st, a) else a)
        if tb is not None and "str" not in tb:
            return I.implicit(st, "TypeError", node, "str + non-str")
        return [(st, mkcat([a, b]) if not (isinstance(a, Top) or isinstance(b, Top)) else Top(frozenset(["str"])))]
    if isinstance(a, Bi) and t is ast.BitOr:
        return [(st, a)]  # typing unions
    if t is ast.Div and isinstance(a, Term) and a.op == "Path":
        for x in [lib.path_join(I, st, a.args[0], b.args[0] if isinstance(b, Term) and b.op == "Path" else b)]:
            return [(st, Term("Path", (x,), frozenset(["path"])))]
    for x in (a, b):
        if isinstance(x, C) and x.v is None:
            return I.implicit(st, "TypeError", node, "arithmetic on None")
        if isinstance(x, Ref) and not isinstance(st.get(x.a), Inst):
            o = b if x is a else a
            if isinstance(o, (C, Sym, Poly)) or isinstance(o, Ref):
                return I.implicit(st, "TypeError", node, "arithmetic on container")
    if isinstance(a, Idx) or isinstance(b, Idx):
        if t in (ast.Add, ast.Sub):
            x, y = a, b
            if isinstance(x, Idx) and poly_of(y) is not None and not isinstance(y, Idx):
                return [(st, Idx(poly_add(poly_of(x.base), poly_of(y), 1 if t is ast.Add else -1), x.cnt))]
            if isinstance(y, Idx) and t is ast.Add and poly_of(x) is not None:
                return [(st, Idx(poly_add(poly_of(y.base), poly_of(x)), y.cnt))]
        return [(st, Top(frozenset(["int"])))]
    pa, pb = poly_of(a), poly_of(b)
    if pa is not None and pb is not None and not isinstance(a, Top) and not isinstance(b, Top):
        if t is ast.Add:
            return [(st, poly_add(pa, pb))]
        if t is ast.Sub:
            return [(st, poly_add(pa, pb, -1))]
        if t is ast.Mult:
            return [(st, poly_mul(pa, pb))]
        if t is ast.Pow and isinstance(b, C) and b.v == 2:
            return [(st, poly_mul(pa, pa))]
        if t is ast.Div and isinstance(b, C) and b.v:
            return [(st, poly_mul(pa, {(): 1.0 / b.v}))]
        return [(st, Term(t.__name__, (a, b), frozenset(["float"]) if t is ast.Div else NUM))]
    if t in (ast.BitAnd, ast.RShift, ast.LShift, ast.Mod, ast.BitOr, ast.FloorDiv) and isinstance(a, Term):
        return [(st, Term(t.__name__, (a, b), frozenset(["int"])))]
    ta, tb = types_of(st, a), types_of(st, b)
    if ta is not None and tb is not None and ta <= NUMT and tb <= NUMT:
        return [(st, Top(frozenset(["int"]) if ta | tb <= frozenset(["int"]) and t is not ast.Div else NUM))]
    return [(st, Top(None, "binop"))]


def as_set(st, v):
    if isinstance(v, Ref):
        o = st.get(v.a)
        return o if isinstance(o, SetO) else None
    if isinstance(v, Bi) and v.name in ("view.keys", "view.items"):
        if isinstance(v.self_, InstDict):
            return SetO([(C(k), "must") for k in st.get(v.self_.a).attrs]) if v.name == "view.keys" else None
        if v.name == "view.keys":
            o = st.get(v.self_.a)
            return SetO([(k, p) for k, _, p in o.items])
    return None


def set_op(I, st, t, a, sa, b, sb, node):
    """set algebra; definite elements whose membership is unknown are split"""
    # decide definite-vs-definite relations first
    cur = [st]
    for k, p in sa.items:
        for kk, pp in sb.items:
            if is_multi(k) or is_multi(kk) or isinstance(k, Ref) or isinstance(kk, Ref):
                continue
            nx = []
            for s in cur:
                if eqv(I, s, k, kk) is None:
                    nx += [s2 for s2, _ in eqfork(I, s, k, kk, node)]
                else:
                    nx.append(s)
            cur = nx
    res = []
    for s in cur:
        res += set_op1(I, s, t, sa, sb, node)
    return res


def set_op1(I, s, t, sa, sb, node):
    def rel(k, other):
        """(certain, possible)"""
        cert = poss = False
        for kk, pp in other.items:
            r = eqv_user(I, s, k, kk)
            if r is True and pp == "must":
                cert = True
            if r is not False:
                poss = True
        return cert, poss
    out = []
    unsure = []
    if t is ast.BitOr:
        out = list(sa.items)
        for k, p in sb.items:
            for i, (kk, pp) in enumerate(out):
                if k == kk or eqv_user(I, s, k, kk) is True:
                    if p == "must":
                        out[i] = (kk, "must")
                    break
            else:
                out.append((k, p))
    elif t in (ast.Sub, ast.BitAnd):
        for k, p in sa.items:
            cert, poss = rel(k, sb)
            keep = (not poss, True) if t is ast.Sub else (cert, poss)
            if t is ast.Sub:
                if cert and not is_multi(k):
                    continue
                if not poss:
                    out.append((k, p))
                elif p in STARS or is_multi(k):
                    out.append((k, "star"))
                else:
                    unsure.append((k, p))
            else:
                if not poss:
                    continue
                if cert and not is_multi(k):
                    out.append((k, p))
                elif p in STARS or is_multi(k):
                    out.append((k, "star"))
                else:
                    unsure.append((k, p))
    else:
        r1 = set_op1(I, s, ast.Sub, sa, sb, node)
        for k, p in sa.items:
            cert, poss = rel(k, sb)
            if not poss:
                out.append((k, p))
            elif not cert:
                out.append((k, "star" if is_multi(k) else "may"))
        for k, p in sb.items:
            cert, poss = rel(k, sa)
            if not poss:
                out.append((k, p))
            elif not cert:
                out.append((k, "star" if is_multi(k) else "may"))
    combos = [(s, out)]
    for k, p in unsure:
        nx = []
        for x, cur in combos:
            y = x.fork()
            nx.append((x, cur + [(k, p)]))
            nx.append((y, list(cur)))
        combos = nx
    res = []
    for x, items in combos:
        res.append((x, I.alloc(x, node, SetO(items, sa.frozen), "setop")))
    return res


def inplace(I, st, op, a, b, node):
    res = []
    for s, x in force(I, st, a):
        if isinstance(x, Ref):
            o = s.get(x.a)
            if isinstance(o, ListO) and isinstance(op, ast.Add):
                res += [(s2, r if isinstance(r, Raise) else x) for s2, r in list_extend(I, s, x, b, node)]
                continue
            if isinstance(o, SetO) and not o.frozen:
                for s1, y in force(I, s, b):
                    for s2, r in binop(I, s1, op, x, y, node):
                        if isinstance(r, Raise):
                            res.append((s2, r))
                            continue
                        ro = s2.get(r.a)
                        oo = s2.get(x.a)
                        if oo.summ:
                            ro = joinset(oo, ro, s2, s2, True, True)
                        s2.set(x.a, SetO(ro.items, False, oo.summ))
                        res.append((s2, x))
                continue
            if isinstance(o, DictO) and isinstance(op, ast.BitOr):
                res += [(s2, r if isinstance(r, Raise) else x) for s2, r in dict_update(I, s, x, b, node)]
                continue
        for s1, y in force(I, s, b):
            res += binop(I, s1, op, x, y, node)
    return res


# ------------------------------------------------------------------ strings
def tostr(I, st, v, node, opaque=False):
    """str(v) -> [(st, Val|Raise)]"""
    res = []
    for s, x in force(I, st, v):
        if opaque:
            res.append((s, Top(frozenset(["str"]))))
        elif isinstance(x, C):
            res.append((s, C(str(x.v))))
        elif is_str(s, x):
            res.append((s, x))
        elif isinstance(x, Ref):
            o = s.get(x.a)
            if isinstance(o, Inst):
                if isinstance(o.cls, Cls) and o.cls.kind == "enum":
                    m0 = class_attr(I, s, o.cls, "__str__")
                    if m0 is None or isinstance(m0, Bi):
                        res.append((s, C("%s.%s" % (o.cls.name, o.attrs["name"].v))))
                        continue
                m = class_attr(I, s, o.cls, "__str__")
                if m is None or isinstance(m, Bi):
                    m = class_attr(I, s, o.cls, "__repr__")
                if m is not None and not isinstance(m, Bi):
                    res += I.call(s, m, [("E", x)], [], node)
                    continue
            res.append((s, Top(frozenset(["str"]))))
        elif isinstance(x, Sym) and x.types is not None and x.types <= NUM:
            res.append((s, Term("str", (x,), frozenset(["str"]))))
        elif isinstance(x, (Poly, Term)) and types_of(s, x) is not None and types_of(s, x) <= NUM:
            res.append((s, Term("str", (x,), frozenset(["str"]))))
        elif isinstance(x, Top) and x.types is not None and x.types <= frozenset(["int"]):
            res.append((s, Top(frozenset(["str"]), "digits")))
        elif isinstance(x, Term) and x.op == "Path":
            res.append((s, x.args[0]))
        elif isinstance(x, Sym):
            res.append((s, Term("str", (x,), frozenset(["str"]))))
        else:
            res.append((s, Top(frozenset(["str"]))))
    return res


# ------------------------------------------------------------------ isinstance
def isinst(I, st, v, cls, node):
    """True/False/None"""
    if isinstance(cls, Tup):
        rs = [isinst(I, st, v, c, node) for _, c, _ in cls.segs]
        if True in rs:
            return True
        if all(r is False for r in rs):
            return False
        ts = None if isinstance(v, Ref) else types_of(st, v)
        if ts is not None and len(ts) > 1:
            # every possible type on its own
            rs = [isinst(I, st, Top(frozenset([t])), cls, node) for t in ts]
            if all(r is True for r in rs):
                return True
        return None
    if isinstance(cls, (Ch, Un)):
        return None
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, Inst):
            return is_sub(I, st, o.cls, cls) or (isinstance(o.cls, Cls) and o.cls.kind == "namedtuple" and cls == Bi("tuple"))
        kind = lib.kind_name(o)
        if isinstance(cls, Cls):
            return False
        n = cls.name.split(".")[-1]
        if n == "object":
            return True
        sup = {"list": ("list", "Sequence", "MutableSequence", "Iterable", "Collection", "List", "Sized"),
               "dict": ("dict", "Mapping", "MutableMapping", "Iterable", "Collection", "Dict", "Sized"),
               "set": ("set", "Set", "Iterable", "Collection", "AbstractSet", "MutableSet", "Sized"),
               "frozenset": ("frozenset", "Set", "Iterable", "Collection", "AbstractSet", "Sized"),
               "iter": ("Iterable", "Iterator", "Generator")}
        if n in ("OrderedDict", "defaultdict", "Counter"):
            return o.kind == n if isinstance(o, DictO) else False
        if n == "deque":
            return isinstance(o, ListO) and o.kind == "deque"
        return n in sup.get(kind, (kind,))
    if isinstance(cls, Cls):
        if isinstance(v, Top):
            return None
        if isinstance(v, Sym) and v.types is None:
            return None
        if isinstance(v, Cls):
            return False
        return False
    if isinstance(v, Cls):
        return cls.name in ("type", "object")
    if isinstance(cls, Bi):
        n = cls.name.split(".")[-1]
        if n == "object":
            return True
        m = {"str": "str", "int": "int", "float": "float", "bool": "bool", "tuple": "tuple", "list": "list", "dict": "dict",
             "NoneType": "none", "Mapping": "dict", "Sequence": "list", "Number": "num", "Real": "num"}
        if isinstance(v, Bi) and n in ("Callable", "FunctionType"):
            return True
        if isinstance(v, (Fn, Bound)):
            return n in ("Callable", "FunctionType", "MethodType")
        t = types_of(st, v)
        if t is None:
            return None
        if n == "int":
            want = {"int", "bool"}
        elif n in ("Number", "Real"):
            want = {"int", "float", "bool"}
        elif n in ("Iterable", "Collection", "Sized", "Sequence"):
            want = {"str", "list", "tuple", "dict", "set", "frozenset"}
        else:
            want = {m.get(n, n)}
        if t <= want:
            return True
        if not (t & want):
            return False
        return None
    return None
