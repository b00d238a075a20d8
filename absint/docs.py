"""Building abstract documents in the heap and reading results back."""
from domain import *  # noqa
from state import *  # noqa


class Rest:
    """any number of list elements described by one summary element"""

    def __init__(self, v, cnt=None):
        self.v, self.cnt = v, cnt


class D:
    """dictionary with explicit entries (key, value[, presence])"""

    def __init__(self, *items):
        self.items = items


def build(I, st, x, summ=False, tag=()):
    """host structure with abstract leaves -> value in st"""
    if isinstance(x, Val):
        return x
    if isinstance(x, dict):
        x = D(*x.items())
    if isinstance(x, D):
        items = []
        for n, it in enumerate(x.items):
            k, v = it[0], it[1]
            p = it[2] if len(it) > 2 else "must"
            kv = k if isinstance(k, Val) else C(k)
            items.append((kv, build(I, st, v, summ or p == "star", tag + (n,)), p))
        a = I.ctxs.mk(0, "doc", (I.docno, tag, summ))
        st.set(a, DictO(items, summ=summ))
        return Ref(a)
    if isinstance(x, (list, tuple)):
        segs = []
        for n, v in enumerate(x):
            if isinstance(v, Rest):
                segs.append(("R", build(I, st, v.v, True, tag + (n,)), v.cnt))
            else:
                segs.append(("E", build(I, st, v, summ, tag + (n,)), None))
        a = I.ctxs.mk(0, "doc", (I.docno, tag, summ))
        st.set(a, ListO(segs, summ=summ))
        return Ref(a)
    return C(x)


class NotConcrete(Exception):
    pass


def plain(st, v):
    """fully concrete value -> host value"""
    if isinstance(v, C):
        return v.v
    if isinstance(v, Tup):
        return tuple(plain(st, x) for k, x, _ in v.segs)
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, DictO):
            if any(p != "must" for _, _, p in o.items):
                raise NotConcrete(repr(o))
            return {plain(st, k): plain(st, x) for k, x, _ in o.items}
        if isinstance(o, ListO):
            if any(k != "E" for k, _, _ in o.segs):
                raise NotConcrete(repr(o))
            return [plain(st, x) for _, x, _ in o.segs]
        if isinstance(o, SetO):
            return {plain(st, k) for k, _ in o.items}
        if isinstance(o, Inst):
            return {k: plain(st, x) for k, x in o.attrs.items() if not k.startswith("$")}
    raise NotConcrete(repr(v))


def show(st, v, depth=12, seen=()):
    """readable form of an abstract value"""
    if isinstance(v, Ref):
        if v.a in seen or depth < 0:
            return "..."
        o = st.get(v.a)
        sn = seen + (v.a,)
        if isinstance(o, DictO):
            return "{" + ", ".join("%s%s: %s" % ({"must": "", "may": "?", "star": "*", "all": "**"}[p], show(st, k), show(st, x, depth - 1, sn))
                                   for k, x, p in o.items) + "}" + ("~" if o.unord else "")
        if isinstance(o, ListO):
            return "[" + ", ".join("%s%s" % ({"E": "", "M": "?", "R": "*"}[k], show(st, x, depth - 1, sn)) for k, x, _ in o.segs) + "]" + ("~" if o.unord else "")
        if isinstance(o, SetO):
            return "set{" + ", ".join("%s%s" % ({"must": "", "may": "?", "star": "*", "all": "**"}[p], show(st, k)) for k, p in o.items) + "}"
        if isinstance(o, Inst):
            return "%s(%s)" % (getattr(o.cls, "name", o.cls), ", ".join("%s=%s" % (k, show(st, x, depth - 1, sn)) for k, x in o.attrs.items()))
        return repr(o)
    if isinstance(v, Ch):
        return "%s{%s}" % (v.tok, "|".join("%s=%s" % (l, show(st, x, depth - 1, seen)) for l, x in v.alts))
    if isinstance(v, Un):
        return "Un(" + "|".join(sorted(show(st, x, depth - 1, seen) for x in v.vals)) + ")"
    if isinstance(v, Tup):
        return "(" + ", ".join(k.replace("E", "") + show(st, x, depth - 1, seen) for k, x, _ in v.segs) + ")"
    return repr(v)
