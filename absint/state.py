"""Abstract states, joins and partitioned merging."""
from domain import *  # noqa: F401,F403
from domain import seg3


class Ctx:
    """Interned context tree. A context is (parent, node id, tag)."""

    def __init__(self):
        self.tab = {}
        self.info = [(None, frozenset(), 0)]  # id -> (parent, R ancestors, depth)
        self.addr = {}
        self.addrinfo = []  # addr -> (ctx, node id, extra)

    def sub(self, parent, nid, tag):
        k = (parent, nid, tag)
        i = self.tab.get(k)
        if i is None:
            i = self.tab[k] = len(self.info)
            rs = self.info[parent][1]
            if tag == "WR" or (isinstance(tag, tuple) and tag and tag[0] == "R"):
                rs = rs | {i}
            self.info.append((parent, rs, self.info[parent][2] + 1))
        return i

    def mk(self, ctx, nid, extra=None):
        k = (ctx, nid, extra)
        a = self.addr.get(k)
        if a is None:
            a = self.addr[k] = len(self.addrinfo)
            self.addrinfo.append(k)
        return a


class St:
    __slots__ = ("heap", "base", "facts", "eff", "fr", "ctx", "stack", "tmps", "trys", "ret", "imp", "alt", "_reach")

    def __init__(self, base):
        self.heap, self.base, self.facts, self.eff = {}, base, {}, ()
        self.fr, self.ctx, self.stack, self.tmps, self.trys = None, 0, (), (), ()
        self.ret = None
        self.imp = ()
        self.alt = ()  # disjunctions of facts lost in joins: tuple of groups, group = tuple of (facts, groups)

    def fork(self):
        s = St.__new__(St)
        s.heap, s.base, s.facts = dict(self.heap), self.base, dict(self.facts)
        s.eff, s.fr, s.ctx, s.stack, s.tmps, s.trys = self.eff, self.fr, self.ctx, self.stack, self.tmps, self.trys
        s.ret, s.imp, s.alt = self.ret, self.imp, self.alt
        return s

    def mark(self, why=""):
        """from here on this state may exist only because of abstraction"""
        if not self.imp:
            self.imp = (why or "choice",)

    def ifork(self, why=""):
        self.mark(why)
        return self.fork()

    def get(self, a):
        o = self.heap.get(a)
        return o if o is not None else self.base.get(a)

    def set(self, a, o):
        self.heap[a] = o

    def note_eff(self, *e):
        self.eff = self.eff + (e,)


def refs_in(v, out):
    if isinstance(v, Ref):
        out.append(v.a)
    elif isinstance(v, (C, Sym, Cat, Top, Poly)) or v is None:
        return
    elif isinstance(v, Tup):
        for _, x, _ in v.segs:
            refs_in(x, out)
    elif isinstance(v, Un):
        for x in v.vals:
            refs_in(x, out)
    elif isinstance(v, Ch):
        for _, x in v.alts:
            refs_in(x, out)
    elif isinstance(v, Bound):
        refs_in(v.self_, out)
        refs_in(v.fn, out)
    elif isinstance(v, Fn):
        if v.frame is not None:
            out.append(v.frame)
        for x in v.defaults:
            refs_in(x, out)
        for _, x in v.kwdefaults:
            refs_in(x, out)
    elif isinstance(v, Bi):
        if isinstance(v.self_, Val):
            refs_in(v.self_, out)
        if isinstance(v.extra, Val):
            refs_in(v.extra, out)
        elif isinstance(v.extra, tuple):
            for x in v.extra:
                if isinstance(x, Val):
                    refs_in(x, out)
    elif isinstance(v, Cls):
        out.append(v.a)
    elif isinstance(v, (InstDict, Len)):
        out.append(v.a)
    elif isinstance(v, Term):
        for x in v.args:
            if isinstance(x, Val):
                refs_in(x, out)
    elif isinstance(v, SuperV):
        refs_in(v.self_, out)
    elif isinstance(v, Wrapped):
        refs_in(v.fn, out)


def obj_refs(o):
    out = []
    if isinstance(o, Frame):
        for v in o.vars.values():
            refs_in(v, out)
        if o.parent is not None:
            out.append(o.parent)
    elif isinstance(o, Inst):
        for v in o.attrs.values():
            refs_in(v, out)
        refs_in(o.cls, out)
    elif isinstance(o, ClsO):
        for v in o.attrs.values():
            refs_in(v, out)
    elif isinstance(o, ListO):
        for _, v, _ in o.segs:
            refs_in(v, out)
    elif isinstance(o, DictO):
        for k, v, _ in o.items:
            refs_in(k, out)
            refs_in(v, out)
        if o.factory is not None:
            refs_in(o.factory, out)
    elif isinstance(o, SetO):
        for k, _ in o.items:
            refs_in(k, out)
    return out


def reach(st, extra=()):
    todo = list(st.stack)
    if st.fr is not None:
        todo.append(st.fr)
    for v in st.tmps:
        refs_in(v, todo)
    for v in extra:
        refs_in(v, todo)
    if isinstance(st.ret, Val):
        refs_in(st.ret, todo)
    base = st.base
    todo.extend(a for a in st.heap if a in base)
    seen = set()
    heap = st.heap
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        o = heap.get(a)
        if o is None:
            continue
        seen.add(a)
        todo.extend(obj_refs(o))
    return seen


def gc(st):
    r = reach(st)
    if len(r) < len(st.heap):
        st.heap = {a: o for a, o in st.heap.items() if a in r}


# ------------------------------------------------------------------ joins
STARS = frozenset(["star", "all"])


class Hard(Exception):
    pass


def is_summ_ref(v, st):
    if isinstance(v, Ref):
        o = st.get(v.a)
        return bool(getattr(o, "summ", False))
    return False


def weakv(v, st):
    """Values that may be blended in a strict join."""
    if isinstance(v, Ref):
        return is_summ_ref(v, st)
    if isinstance(v, Tup):
        return any(k != "E" or weakv(x, st) for k, x, _ in v.segs)
    if isinstance(v, Un):
        return True
    return is_multi(v)


def flat(v):
    return v.vals if isinstance(v, Un) else frozenset([v])


def flatalts(v):
    if isinstance(v, Ch):
        return frozenset(x for _, x in v.alts)
    return flat(v)


def mkun(vals, cap=10):
    s = set()
    for v in vals:
        s |= flat(v)
    if any(isinstance(v, Top) for v in s):
        tops = [v for v in s if isinstance(v, Top)]
        ts = frozenset()
        for t in tops:
            if t.types is None:
                ts = None
                break
            ts |= t.types
        top = Top(ts)
        if ts is None:
            rest = [v for v in s if isinstance(v, Ref)]
            return top if not rest else Un(frozenset(rest + [top]))
        s = set(v for v in s if not isinstance(v, Top) and not (
            types_of_scalar(v) is not None and types_of_scalar(v) <= ts))
        s.add(top)
    if len(s) == 1:
        return next(iter(s))
    if len(s) > cap:
        sc = [v for v in s if types_of_scalar(v) is not None and not isinstance(v, (C, Tup)) or (
            isinstance(v, C) and v.v is not None)]
        ts = frozenset()
        for v in sc:
            ts |= types_of_scalar(v)
        rest = [v for v in s if v not in sc]
        if len(sc) > 1:
            return mkun(rest + [Top(ts)], cap=40)
    return Un(frozenset(s))


INTY = frozenset(["int"])


def inty(v):
    if isinstance(v, C):
        return type(v.v) is int
    t = types_of_scalar(v)
    return t is not None and t <= INTY


def joinv(a, b, s1, s2, weak=False, widen=False):
    if a is b or a == b:
        return a
    if a is None or b is None:
        raise Hard
    if weak:
        a, b = mkun(flatalts(a)), mkun(flatalts(b))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.segs) == len(b.segs) and all(
                x[0] == "E" and y[0] == "E" for x, y in zip(a.segs, b.segs)):
            return Tup([("E", joinv(x[1], y[1], s1, s2, True, widen), None) for x, y in zip(a.segs, b.segs)])
        if inty(a) and inty(b) and widen:
            return Top(INTY)
        return mkun([a, b])
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.segs) == len(b.segs) and all(
            x[0] == "E" and y[0] == "E" for x, y in zip(a.segs, b.segs)):
        return Tup([("E", joinv(x[1], y[1], s1, s2, weak, widen), None) for x, y in zip(a.segs, b.segs)])
    if widen and inty(a) and inty(b):
        return Top(INTY)
    if isinstance(a, Top) and isinstance(b, Top):
        return mkun([a, b])
    if isinstance(a, Top) or isinstance(b, Top):
        t, o = (a, b) if isinstance(a, Top) else (b, a)
        ot = types_of_scalar(o)
        if ot is not None and t.types is not None and ot <= t.types and not isinstance(o, C):
            return t
        if inty(t) and inty(o):
            return t
        if weakv(o, s2 if o is b else s1):
            return mkun([a, b])
        raise Hard
    if weakv(a, s1) and weakv(b, s2):
        return mkun([a, b])
    if isinstance(a, (Fn, Bound)) and isinstance(b, (Fn, Bound)) and type(a) is type(b):
        raise Hard
    raise Hard


def joinlist(o1, o2, s1, s2, weak, widen):
    g1, g2 = o1.segs, o2.segs
    if g1 == g2:
        segs = g1
    else:
        n = 0
        m = min(len(g1), len(g2))
        while n < m and g1[n] == g2[n]:
            n += 1
        k = 0
        while k < m - n and g1[-1 - k] == g2[-1 - k]:
            k += 1
        p, q = g1[:n], g1[len(g1) - k:]
        m1, m2 = g1[n:len(g1) - k], g2[n:len(g2) - k]
        mid = None
        if len(m1) == len(m2):
            # pointwise
            try:
                mid = []
                for (k1, v1, c1), (k2, v2, c2) in zip(m1, m2):
                    if k1 == k2 == "E":
                        mid.append(("E", joinv(v1, v2, s1, s2, weak, widen), None))
                    elif k1 == "R" or k2 == "R":
                        if (k1 == "E" and not weakv(v1, s1) or k2 == "E" and not weakv(v2, s2)) and not weak:
                            raise Hard
                        mid.append(("R", joinv(v1, v2, s1, s2, True, widen), c1 if c1 == c2 else None))
                    else:
                        if (k1 == "E" and not weakv(v1, s1) or k2 == "E" and not weakv(v2, s2)) and not weak:
                            raise Hard
                        mid.append(("M", joinv(v1, v2, s1, s2, True, widen), None))
            except Hard:
                mid = None
        if mid is None:
            grown = widen and not (m1 and m2) and not q
            for (kk, v, c), s in [(x, s1) for x in m1] + [(x, s2) for x in m2]:
                if kk == "E" and not weakv(v, s) and not weak and not grown:
                    raise Hard
            vs = [v for _, v, _ in m1] + [v for _, v, _ in m2]
            allv = vs[0]
            for v in vs[1:]:
                allv = joinv(allv, v, s1, s2, True, widen)
            mid = [("R", allv, None)]
        segs = norm_segs(list(p) + mid + list(q), s1, s2)
    return ListO(segs, o1.kind, None, o1.summ or o2.summ, o1.depth, o1.unord or o2.unord)


def norm_segs(segs, s1=None, s2=None):
    out = []
    for s in segs:
        if out and s[0] in "RM" and out[-1][0] in "RM" and s[2] is None and out[-1][2] is None and (
                out[-1][1] == s[1] or True):
            p = out.pop()
            out.append(("R", mkun([p[1], s[1]]), None))
        elif out and s[0] == "E" and out[-1][0] == "R" and out[-1][2] is None and out[-1][1] == s[1] and is_multi(s[1]):
            continue
        else:
            out.append(s)
    return out


def joindict(o1, o2, s1, s2, weak, widen):
    d2 = {k: (v, p) for k, v, p in o2.items}
    d1 = {k: (v, p) for k, v, p in o1.items}
    items = []
    for k, v, p in o1.items:
        if k in d2:
            v2, p2 = d2[k]
            if p == "all" and p2 == "all":
                items.append((k, joinv(v, v2, s1, s2, True, widen), "all"))
            elif p in STARS or p2 in STARS:
                items.append((k, joinv(v, v2, s1, s2, True, widen), "star"))
            elif p == p2:
                items.append((k, joinv(v, v2, s1, s2, weak or p == "may", widen), p))
            else:
                if not weak:
                    raise Hard
                items.append((k, joinv(v, v2, s1, s2, True, widen), "may"))
        else:
            if p in ("must", "all"):
                if is_multi(k):
                    p = "star"
                elif not weak:
                    raise Hard
                else:
                    p = "may"
            items.append((k, v, p))
    for i, (k, v, p) in enumerate(o2.items):
        if k not in d1:
            if p in ("must", "all"):
                if is_multi(k):
                    p = "star"
                elif not weak:
                    raise Hard
                else:
                    p = "may"
            # keep the relative order where possible
            prev = None
            for kk, _, _ in reversed(o2.items[:i]):
                if any(x[0] == kk for x in items):
                    prev = kk
                    break
            at = 0
            for j, x in enumerate(items):
                if prev is not None and x[0] == prev:
                    at = j + 1
            items.insert(at, (k, v, p))
    return DictO(items, o1.kind, o1.factory, o1.summ or o2.summ, o1.depth, o1.unord or o2.unord)


def joinset(o1, o2, s1, s2, weak, widen):
    d2 = dict(o2.items)
    d1 = dict(o1.items)
    items = []
    for a, b in ((o1.items, d2), ):
        for k, p in a:
            if k in b:
                p = p if p == b[k] else ("star" if p in STARS or b[k] in STARS else "may")
                if p == "may" and not weak and (d1[k] != d2[k]):
                    raise Hard
            elif p in ("must", "all"):
                if weakv(k, s1):
                    p = "star"
                elif weak:
                    p = "may"
                else:
                    raise Hard
            items.append((k, p))
    for k, p in o2.items:
        if k not in d1:
            if p in ("must", "all"):
                if weakv(k, s2):
                    p = "star"
                elif weak:
                    p = "may"
                else:
                    raise Hard
            items.append((k, p))
    return SetO(items, o1.frozen, o1.summ or o2.summ, o1.depth)


def joinobj(o1, o2, s1, s2, weak=False, widen=False):
    if o1 is o2 or o1 == o2:
        return o1
    if o1.__class__ is not o2.__class__:
        raise Hard
    if isinstance(o1, Frame):
        if o1.parent != o2.parent:
            raise Hard
        d = {}
        for k in list(o1.vars) + [k for k in o2.vars if k not in o1.vars]:
            if k in o1.vars and k in o2.vars:
                d[k] = joinv(o1.vars[k], o2.vars[k], s1, s2, weak, widen)
            elif weak or True:
                d[k] = o1.vars.get(k, o2.vars.get(k))
        return Frame(d, o1.parent, o1.info)
    summ = getattr(o1, "summ", False) or getattr(o2, "summ", False)
    weak = weak or summ
    if isinstance(o1, Inst):
        if o1.cls != o2.cls:
            raise Hard
        d = {}
        for k in list(o1.attrs) + [k for k in o2.attrs if k not in o1.attrs]:
            if k in o1.attrs and k in o2.attrs:
                d[k] = joinv(o1.attrs[k], o2.attrs[k], s1, s2, weak, widen)
            else:
                if not weak:
                    raise Hard
                d[k] = o1.attrs.get(k, o2.attrs.get(k))
        return Inst(o1.cls, d, summ, o1.depth)
    if isinstance(o1, ClsO):
        d = {}
        if set(o1.attrs) != set(o2.attrs):
            raise Hard
        for k in o1.attrs:
            d[k] = joinv(o1.attrs[k], o2.attrs[k], s1, s2, weak, widen)
        return ClsO(d)
    if isinstance(o1, ListO):
        if o1.kind != o2.kind:
            raise Hard
        return joinlist(o1, o2, s1, s2, weak, widen)
    if isinstance(o1, DictO):
        return joindict(o1, o2, s1, s2, weak, widen)
    if isinstance(o1, SetO):
        return joinset(o1, o2, s1, s2, weak, widen)
    raise Hard


STATS = {"joins": 0, "fails": 0, "forced": 0}
DBG = {"why": None}


def joinst(s1, s2, widen=False, force=False):
    """Join of two states at the same program point, or None when they differ in
    something definite (and force is off)."""
    if s1.fr != s2.fr or s1.ctx != s2.ctx or s1.stack != s2.stack:
        return None
    if s1.eff != s2.eff and not force:
        return None
    r = None
    if s1.ret is not s2.ret and s1.ret != s2.ret:
        if isinstance(s1.ret, Val) and isinstance(s2.ret, Val):
            try:
                r = joinv(s1.ret, s2.ret, s1, s2, force, widen)
            except Hard:
                return None
        else:
            return None
    else:
        r = s1.ret
    h1, h2 = s1.heap, s2.heap
    new = {}
    hard = []
    for a, o1 in h1.items():
        o2 = h2.get(a)
        if o2 is None:
            ob = s2.base.get(a)
            if ob is None or ob is o1:
                new[a] = o1
                continue
            o2 = ob
        if o1 is o2:
            new[a] = o1
            continue
        try:
            new[a] = joinobj(o1, o2, s1, s2, force, widen)
        except Hard:
            if force:
                new[a] = o1
                hard.append(a)
            else:
                new[a] = o1
                hard.append(a)
                if len(hard) > 40:
                    STATS["fails"] += 1
                    return None
    for a, o2 in h2.items():
        if a not in h1:
            ob = s1.base.get(a)
            if ob is not None and ob is not o2:
                try:
                    new[a] = joinobj(ob, o2, s1, s2, force, widen)
                except Hard:
                    return None
            else:
                new[a] = o2
    if hard:
        r1 = reach1(s1)
        r2 = None
        for a in hard:
            if a in r1:
                if r2 is None:
                    r2 = reach1(s2)
                if a in r2:
                    STATS["fails"] += 1
                    DBG["why"] = (a, h1.get(a), h2.get(a))
                    return None
            else:
                # s1 cannot see it; keep the version s2 can see
                if a in h2:
                    new[a] = h2[a]
    s = s1.fork()
    s.heap = new
    if s1.facts is not s2.facts and s1.facts != s2.facts:
        f2 = s2.facts
        s.facts = {k: v for k, v in s1.facts.items() if f2.get(k, k) == v}
    s.ret = r
    joinalt(s, s1, s2)
    s.imp = (s1.imp and s2.imp) if not force else (s1.imp or s2.imp or ("forced join",))
    STATS["joins"] += 1
    return s


REACH = []  # what states can reach, while a merge that does not change them is under way


def reach1(s):
    if not REACH:
        return reach(s)
    r = REACH[-1].get(id(s))
    if r is None:
        r = REACH[-1][id(s)] = (s, reach(s))
    return r[1]


MAXALT = 12


def joinalt(s, s1, s2):
    """remember the alternatives whose facts the join cannot express (judged when an outcome is reported)"""
    d1 = frozenset((k, v) for k, v in s1.facts.items() if k not in s.facts)
    d2 = frozenset((k, v) for k, v in s2.facts.items() if k not in s.facts)
    if s1.alt == s2.alt:
        s.alt = s1.alt
        if not d1 or not d2:
            return
        if len(d1) == 1 and len(d2) == 1:
            (k1, v1), = d1
            (k2, v2), = d2
            if k1 == k2 and isinstance(v1, bool) and isinstance(v2, bool):
                return
        new = ((d1, ()), (d2, ()))
        s.alt = s1.alt + (new,)
    else:
        com = tuple(g for g in s1.alt if g in s2.alt)
        r1 = tuple(g for g in s1.alt if g not in com)
        r2 = tuple(g for g in s2.alt if g not in com)
        # a group that already lists alternatives takes in one more
        if len(r1) == 1 and not r2 and not d1 and len(r1[0]) < MAXALT:
            new = r1[0] if any(d <= d2 and not g for d, g in r1[0]) else r1[0] + ((d2, ()),)
        elif len(r2) == 1 and not r1 and not d2 and len(r2[0]) < MAXALT:
            new = r2[0] if any(d <= d1 and not g for d, g in r2[0]) else r2[0] + ((d1, ()),)
        else:
            new = ((d1, r1), (d2, r2))
        s.alt = com + (new,)
    if len(s.alt) > MAXALT or altdepth(new) > MAXALT:
        s.alt = ()
        s.mark("alternatives merged")


def altdepth(g):
    return 1 + max([altdepth(x) for _, gs in g for x in gs] or [0])


def same(s, j):
    """Is the joined state j equal to s (so the other operand added nothing)?"""
    if s.facts != j.facts or (s.imp and not j.imp):
        return False
    if s.ret is not j.ret and s.ret != j.ret:
        return False
    for a, o in j.heap.items():
        o1 = s.heap.get(a)
        if o1 is None:
            continue
        if o1 is not o and o1 != o:
            return False
    return True


def merge(states, widen=False, limit=48):
    if len(states) < 2:
        return list(states)
    REACH.append({})
    try:
        return merge1(states, widen, limit)
    finally:
        REACH.pop()


def merge1(states, widen, limit):
    out = []
    for s in states:
        for i, t in enumerate(out):
            j = joinst(t, s, widen)
            if j is not None:
                out[i] = j
                break
        else:
            out.append(s)
    while len(out) > limit:
        done = False
        for i in range(len(out) - 1, 0, -1):
            for k in range(i):
                j = joinst(out[k], out[i], widen, force=True)
                if j is not None:
                    STATS["forced"] += 1
                    out[k] = j
                    del out[i]
                    done = True
                    break
            if done:
                break
        if not done:
            break
    return out
