"""Shared machinery of the checks: running the abstract interpreter on a driver with abstract
arguments, reading the result back, comparing it, and turning outcomes into verdicts.

Nothing of /repo is ever imported or executed here: the package's source is parsed and interpreted
over abstract values (unknown names, unknown numbers, choices, summaries of any number of elements).
"""
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "absint"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import interp as _interp  # noqa: E402
import ops  # noqa: E402
from domain import *  # noqa: E402,F401,F403
from domain import (ABSENT, Bi, Bound, C, Cat, Ch, Cls, ClsO, DictO, Fn, Frame, Idx, Inst, Len, ListO, Poly, Raise, Ref,  # noqa: E402
                    SetO, Sym, Term, Top, Tup, Un, Val, is_multi, map_scalar, mkcat)
from docs import D, Rest, build, show  # noqa: E402
import state  # noqa: E402
from state import obj_refs, refs_in  # noqa: E402

STR = frozenset(["str"])
INT = frozenset(["int"])
NUMS = frozenset(["int", "float"])
BOOL = frozenset(["bool"])


def name(n, group=None, ne=(), nochars="[", **kw):
    """an unknown non-empty string"""
    return Sym(n, STR, True, False, group, ne, nochars, **kw)


def num(n, ne=(), types=NUMS, truth=None):
    """an unknown number"""
    return Sym(n, types, truth, False, None, ne)


def flag(n, ne=()):
    return Sym(n, BOOL, None, False, None, ne)


def fam(n, count, group=None, ne=(), types=STR, nochars="["):
    """one unknown value for each of any number of elements"""
    return Sym(n, types, True if types == STR else None, True, group, ne, nochars if types == STR else "", own=count)


def count(n):
    return Sym("#" + n, INT)


class Unknown:
    """a part of a result the analysis has no exact description of"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "?(%s)" % self.why


class Many:
    """dictionary entry standing for one entry per member of a family"""

    def __init__(self, key, v, pres):
        self.key, self.v, self.pres = key, v, pres

    def __repr__(self):
        return "**%r: %r" % (self.key, self.v)


class SDict(dict):
    """snapshot of a dictionary; many: entries for whole families; fuzzy: entries that may be there"""

    def __init__(self):
        dict.__init__(self)
        self.many, self.fuzzy, self.unord, self.site = [], [], False, ""

    def __repr__(self):
        return dict.__repr__(self) + ("" if not (self.many or self.fuzzy) else "+%r+%r" % (self.many, self.fuzzy))


class SList(list):
    def __init__(self, *a):
        list.__init__(self, *a)
        self.unord, self.site = False, ""


class SSet(set):
    fuzzy = False


class SInst:
    def __init__(self, cls, attrs, site):
        self.cls, self.attrs, self.site = cls, attrs, site

    def __repr__(self):
        return "%s%r" % (self.cls, self.attrs)


class Engine:
    def __init__(self, repo=REPO):
        self.I = _interp.Interp(repo, "spine_json_lib")
        self.I.extra_modules["drivers"] = os.path.join(ROOT, "absint", "drivers.py")
        self.I.load_all()

    def run(self, driver, args, facts=(), max_steps=3_000_000):
        I = self.I
        I.docno += 1
        st = I.fresh()
        for k, v in facts:
            st.facts[k] = v
        vs = []
        for i, a in enumerate(args):
            vs.append(("E", build(I, st, a, tag=(i,)), None))
        I.steps, I.max_steps = 0, max_steps
        del state.REACH[:]
        I.notes = set()
        I.writes = {}
        pre = dict(st.heap)
        outs = I.call(st, I.lookup(driver), [(k, v) for k, v, _ in vs], [], None, None)
        notes = sorted(I.notes)
        return [Out(I, s, v, args, [v2 for _, v2, _ in vs], pre, notes) for s, v in outs]

    def site(self, a):
        """source position of the allocation of a heap object"""
        try:
            ctx, nid, extra = self.I.ctxs.addrinfo[a]
        except Exception:
            return ""
        while isinstance(nid, tuple):
            nid = nid[0]
        n = self.I.nodes.get(nid)
        return self.I.where(n) if n is not None else ""


def canon_map(st):
    """equalities between unknowns decided on this path -> {sym: representative}"""
    parent = {}

    def find(x):
        while x in parent:
            x = parent[x]
        return x
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "eq" and v is True:
            a, b = k[1], k[2]
            if not (isinstance(a, (Sym, C, Cat)) and isinstance(b, (Sym, C, Cat))):
                continue
            a, b = find(a), find(b)
            if a == b:
                continue
            if rank(a) < rank(b):
                a, b = b, a
            if isinstance(a, Sym) and not mentions(b, a):
                parent[a] = b
    return {x: find(x) for x in parent}


def rank(x):
    return 0 if isinstance(x, C) else (2 if isinstance(x, Sym) else 1)


def mentions(v, s):
    found = []
    map_scalar(v, lambda x: (found.append(1), x)[1] if x == s else x)
    return bool(found)


def consistent(facts, eng=None):
    """may all these facts hold together? (equalities, orders and choices; False only when they clearly do not)"""
    parent = {}

    def find(x):
        while x in parent:
            x = parent[x]
        return x
    for (k, v) in facts:
        if isinstance(k, tuple) and k[0] == "eq" and v is True:
            a, b = find(k[1]), find(k[2])
            if a != b:
                if rank(a) < rank(b):
                    a, b = b, a
                if isinstance(a, C) or isinstance(a, Sym) and isinstance(b, C) and b.v in a.ne:
                    return False
                if isinstance(a, Cat) and isinstance(b, (C, Cat)) and eng is not None and ops.streq(eng, eng.fresh(), a, b) is False:
                    return False
                if not isinstance(a, Sym) and not isinstance(b, (C, Cat, Sym)):
                    a, b = b, a
                parent[a] = b
    seen = {}
    for k, v in facts:
        if isinstance(k, tuple) and k[0] == "eq":
            if v is False and find(k[1]) == find(k[2]):
                return False
        else:
            if isinstance(k, tuple):
                k = tuple(find(x) if isinstance(x, (Sym, C)) else x for x in k)
            if seen.setdefault(k, v) != v:
                return False
            if isinstance(k, tuple) and k[0] == "t" and isinstance(k[1], C) and bool(k[1].v) is not v:
                return False
    return True


def possible(facts, groups, eng=None):
    """is some choice among the alternatives kept by joins consistent with the facts?"""
    if not consistent(facts, eng):
        return False
    if not groups:
        return True
    for d, gs in groups[0]:
        if possible(facts | d, groups[1:] + gs, eng):
            return True
    return False


EXACT_TERMS = {"int", "int?", "float", "hash"}


def opaque(k):
    """does a decision depend on a computed text or number the analysis treats as unknown?"""
    for x in k if isinstance(k, tuple) else (k,):
        if isinstance(x, Term) and (x.op not in EXACT_TERMS or opaque(x.args)):
            return True
        if isinstance(x, Cat) and opaque(x.parts):
            return True
    return False


WORLD = {"isdir", "isfile", "exists"}  # tests of the file system: free, whatever the path is
FREE_TERMS = {"round", "abs", "int", "math.floor", "math.ceil", "math.trunc", "math.fabs", "expanduser", "expandvars"}


def free_test(k, facts):
    """`f(x) == x` for an unconstrained x, where f changes some values and keeps others: either answer can be had"""
    if isinstance(k, tuple) and len(k) == 2 and k[0] in WORLD:
        t = k[1]
        while isinstance(t, Term) and t.args and t.op in ("dirname", "expanduser", "expandvars"):
            t = t.args[0]
        return not opaque(t)
    if not (isinstance(k, tuple) and len(k) == 3 and k[0] == "eq"):
        return False
    for t, x in ((k[1], k[2]), (k[2], k[1])):
        if isinstance(t, Term) and t.op in FREE_TERMS and t.args and not opaque(t.args[0]) and (t.args[0] == x or facts[k] is False and isinstance(x, C)):
            x = t.args[0]
            if isinstance(x, Cat) and not (isinstance(x.parts[0], Sym) and not {'~', '$'} & set(x.parts[0].ne) and isinstance(x.parts[1], str) and x.parts[1].startswith("/")):
                return False
            if not isinstance(x, (Sym, Poly, Cat)):
                return False
            found = []
            map_scalar(x, lambda y: (found.append(y), y)[1])
            return not any(f != k and v is True and isinstance(f, tuple) and f[0] == "eq" and
                           any(mentions(y, z) for y in f[1:] if isinstance(y, (Sym, Poly, Cat, Term)) for z in found if isinstance(z, Sym))
                           for f, v in facts.items())
    return False


class Out:
    """one abstract outcome: a set of executions sharing control decisions that matter"""

    def __init__(self, I, st, v, args, argvals, pre, notes):
        self.I, self.st, self.v, self._args, self.argvals, self.pre, self.notes = I, st, v, args, argvals, pre, notes
        self.imprecise = bool(st.imp) or any(opaque(k) and not free_test(k, st.facts) for k in st.facts)
        self.map = canon_map(st)
        self.raised = v.excname() if isinstance(v, Raise) else None
        self.raise_info = repr(v) if isinstance(v, Raise) else ""

    def feasible(self, more={}):
        try:
            return possible(frozenset(self.st.facts.items()) | frozenset(more.items()), self.st.alt, self.I)
        except TypeError:
            return True

    def cases(self, free):
        """split by which of its candidates an unknown of the scenario is equal to (or none of them)"""
        todo = [self]
        for sym, cands in free:
            nxt = []
            for o in todo:
                x = o.map.get(sym, sym)
                und = [c for c in cands if c != x and o.map.get(c, c) != x and o.st.facts.get(ops.eqkey(sym, c if isinstance(c, Val) else C(c))) is None
                       and not (isinstance(x, C) or isinstance(x, Cat))]
                if not und or any((o.map.get(c, c) if isinstance(c, Val) else C(c)) == x for c in cands):
                    nxt.append(o)
                    continue
                for c in list(und) + [None]:
                    more = {ops.eqkey(sym, d if isinstance(d, Val) else C(d)): d is c for d in und}
                    if o.feasible(more):
                        st = o.st.fork()
                        st.facts.update(more)
                        nxt.append(Out(o.I, st, o.v, o._args, o.argvals, o.pre, o.notes))
            todo = nxt
        return todo

    # --- argument and result in host form
    def canon(self, v):
        if isinstance(v, (Sym, Cat, Term, Poly)):
            v = map_scalar(v, lambda s: self.map.get(s, s))
        if isinstance(v, Ch):
            f = self.st.facts.get(("ch", v.tok))
            if f is not None:
                for lab, x in v.alts:
                    if lab == f:
                        return self.canon(x)
            return v
        if isinstance(v, C):
            return v.v
        return v

    def host(self, x):
        """canonical form of a scenario argument"""
        if isinstance(x, Val):
            return self.canon(x)
        if isinstance(x, Rest):
            return Rest(self.host(x.v), x.cnt)
        if isinstance(x, D):
            return D(*[(self.host(it[0]), self.host(it[1])) + tuple(it[2:]) for it in x.items])
        if isinstance(x, dict):
            return {self.host(k): self.host(v) for k, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [self.host(v) for v in x]
        return x

    @property
    def args(self):
        return [self.host(a) for a in self._args]

    def snap(self, v=None, depth=40, deep_inst=True):
        """host form of an abstract value of this outcome"""
        st = self.st
        if v is None:
            v = self.v
        if isinstance(v, (Ch, Un)):
            al = []
            for x in ops.alts(st, v):
                if x not in al:
                    al.append(x)
            if len(al) == 1:
                return self.snap(al[0], depth)
            if isinstance(v, Ch):
                return self.canon(v)
            return Unknown(repr(v)[:80])
        if isinstance(v, C):
            return v.v
        if isinstance(v, (Sym, Cat, Poly, Term)):
            r = self.canon(v)
            return r
        if isinstance(v, Tup):
            if all(k == "E" for k, _, _ in v.segs):
                return tuple(self.snap(x, depth - 1) for _, x, _ in v.segs)
            return Unknown("tuple of unknown length")
        if isinstance(v, Ref):
            o = st.get(v.a)
            if depth <= 0:
                return Unknown("depth")
            if isinstance(o, DictO):
                r = SDict()
                r.unord, r.site = o.unord, self.I_site(v.a)
                for k, x, p in o.items:
                    kv = self.snap(k)
                    if x is ABSENT:
                        continue
                    if isinstance(x, (Ch, Un)) and any(y is ABSENT for y in ops.alts(st, x)):
                        r.fuzzy.append((kv, self.snap(x, depth - 1)))
                        continue
                    xs = self.snap(x, depth - 1)
                    if p == "must" and not isinstance(kv, Unknown) and not (isinstance(kv, Val) and is_multi(kv)):
                        r[kv] = xs
                    elif p == "all":
                        r.many.append(Many(kv, xs, p))
                    else:
                        r.fuzzy.append((kv, xs))
                return r
            if isinstance(o, ListO):
                r = SList()
                r.unord, r.site = o.unord, self.I_site(v.a)
                for k, x, c in o.segs:
                    if k == "E":
                        r.append(self.snap(x, depth - 1))
                    elif k == "R":
                        r.append(Rest(self.snap(x, depth - 1), c))
                    else:
                        r.append(Unknown("element that may be missing"))
                return r
            if isinstance(o, SetO):
                r = SSet()
                for k, p in o.items:
                    kk = self.snap(k)
                    if p != "must":
                        r.fuzzy = True
                    else:
                        r.add(kk)
                return r
            if isinstance(o, Inst):
                return SInst(getattr(o.cls, "name", str(o.cls)), {k: self.snap(x, depth - 1) for k, x in o.attrs.items()
                                                                   if not k.startswith("$")}, self.I_site(v.a))
            return Unknown("object")
        if isinstance(v, (Idx, Len)):
            return Unknown(repr(v))
        if isinstance(v, (Fn, Bound, Bi, Cls)):
            return v
        return Unknown(repr(v)[:60])

    def I_site(self, a):
        try:
            ctx, nid, extra = self.I.ctxs.addrinfo[a]
        except Exception:
            return ""
        n = self.I.nodes.get(nid)
        return self.I.where(n) if n is not None else ""

    def part(self, i):
        """i-th element of the returned tuple (raw)"""
        if isinstance(self.v, Tup):
            return self.v.segs[i][1]
        return Top(None)

    def ret(self, i):
        """host form of the i-th element of the returned tuple"""
        return self.snap(self.part(i))

    def attr(self, v, *names):
        """attribute path of an instance value (raw abstract value or None)"""
        for n in names:
            if not isinstance(v, Ref):
                return None
            o = self.st.get(v.a)
            if not isinstance(o, Inst):
                return None
            v = o.attrs.get(n)
        return v

    def reach(self, roots, skip_classes=True):
        """addresses of mutable data objects reachable from values"""
        todo, seen = [], {}
        for r in roots:
            out = []
            refs_in(r, out)
            todo += [(a, None) for a in out]
        while todo:
            a, via = todo.pop()
            if a in seen:
                continue
            o = self.st.get(a)
            if o is None or isinstance(o, (Frame, ClsO)):
                continue
            seen[a] = via
            if isinstance(o, Inst):
                rs = []
                for x in o.attrs.values():
                    refs_in(x, rs)
            else:
                rs = obj_refs(o)
            for x in rs:
                todo.append((x, a))
        return seen

    def facts(self):
        r = []
        items = list(self.st.facts.items())
        for group in self.st.alt:  # merged paths: the first of them
            try:
                items += [x for x in sorted(group[0][0], key=repr) if x not in items]
            except Exception:
                pass
        for k, v in items:
            if k == ("set order",):
                continue
            if isinstance(k, tuple) and k and k[0] in ("eq", "ord"):
                r.append("%r %s %r" % (k[1], {True: "==", False: "!="}.get(v, v), k[2]))
            elif isinstance(k, tuple) and k and k[0] == "ch":
                r.append("%s is '%s'" % (k[1], v))
            else:
                r.append("%r: %r" % (k, v))
        return r


# ---------------------------------------------------------------- comparison of host forms
def leaf_eq(a, b):
    """True | False | None(unknown) for two host leaves on a path where all recorded equalities were applied"""
    if isinstance(a, Unknown) or isinstance(b, Unknown):
        return None
    av, bv = isinstance(a, Val), isinstance(b, Val)
    if not av and not bv:
        if isinstance(a, bool) != isinstance(b, bool):
            return False
        try:
            return bool(a == b)
        except Exception:
            return None
    if av and bv and a == b:
        return True
    for t, x in ((a, b), (b, a)):
        if isinstance(t, Term) and t.op in FREE_TERMS and t.args and t.args[0] == x:
            return False  # the other case was told apart when the term was made
    if hazy(a) or hazy(b):
        return None
    return False


def hazy(x):
    """does a host value contain parts the analysis has no exact description of?"""
    if isinstance(x, (Unknown, Top, Un, Ch, Idx, Len, Term)):
        return True
    if isinstance(x, Cat):
        return any(hazy(p) for p in x.parts)
    if isinstance(x, Rest):
        return hazy(x.v)
    if isinstance(x, dict):
        return bool(getattr(x, "fuzzy", ())) or any(hazy(k) or hazy(v) for k, v in x.items()) or any(hazy(m.key) or hazy(m.v) for m in getattr(x, "many", ()))
    if isinstance(x, (list, tuple, set, frozenset)):
        return bool(getattr(x, "fuzzy", False)) or any(hazy(v) for v in x)
    return False


def soft(ps, x):
    """problems found by looking at x: not definite when parts of x are not exactly known"""
    if any(not isinstance(p, tuple) for p in ps) and hazy(x):
        return [p if isinstance(p, tuple) else ("unk", p) for p in ps]
    return ps


class Diff(Exception):
    pass


def compare(got, want, path="", out=None, unordered=False, ignore_nulls=False):
    """-> list of (path, kind, text); kind 'bad' (definitely different) or 'unk'"""
    if out is None:
        out = []
    if isinstance(got, Unknown):
        out.append((path, "unk", "not decided: %s" % got.why))
        return out
    if isinstance(want, D):
        w = SDict()
        for it in want.items:
            if len(it) > 2 and it[2] == "all":
                w.many.append(Many(it[0], it[1], "all"))
            else:
                w[it[0]] = it[1]
        want = w
    if isinstance(want, dict):
        if not isinstance(got, dict):
            out.append((path, "bad", "expected an object, found %s" % brief(got)))
            return out
        fz = getattr(got, "fuzzy", [])
        gmany, wmany = list(getattr(got, "many", [])), list(getattr(want, "many", []))
        for k, v in want.items():
            if k in got:
                compare(got[k], v, "%s[%s]" % (path, brief(k)), out, unordered, ignore_nulls)
            elif any(leaf_eq(k, fk) is not False for fk, _ in fz):
                out.append((path + "[%s]" % brief(k), "unk", "may be missing"))
            elif any(isinstance(g, Val) and leaf_eq(k, g) is None for g in got):
                out.append((path + "[%s]" % brief(k), "unk", "key not decided"))
            else:
                out.append((path + "[%s]" % brief(k), "bad", "missing (expected %s)" % brief(v)))
        for k, v in got.items():
            if k not in want and not (ignore_nulls and v is None):
                if any(leaf_eq(k, w) is None for w in want):
                    out.append((path + "[%s]" % brief(k), "unk", "key not decided"))
                else:
                    out.append((path + "[%s]" % brief(k), "bad", "unexpected (%s)" % brief(v)))
        for m in wmany:
            g = [x for x in gmany if x.key == m.key]
            if g:
                gmany.remove(g[0])
                compare(g[0].v, m.v, "%s[%s]" % (path, brief(m.key)), out, unordered, ignore_nulls)
            else:
                out.append((path, "unk", "family %r not found" % m.key))
        for m in gmany:
            out.append((path, "unk", "unexpected family %r" % m.key))
        for k, v in fz:
            if not any(leaf_eq(k, w) is not False for w in want):
                out.append((path + "[%s]" % brief(k), "unk", "possibly unexpected"))
        return out
    if isinstance(want, (list, tuple)) and not isinstance(want, Val):
        if not isinstance(got, (list, tuple)):
            out.append((path, "bad", "expected a list, found %s" % brief(got)))
            return out
        if any(isinstance(x, Unknown) for x in got):
            out.append((path, "unk", "list not exactly known"))
            return out
        if getattr(got, "unord", False) and len(got) > 1:
            out.append((path, "unk", "order not determined"))
            return out
        if len(got) != len(want) or any(isinstance(g, Rest) != isinstance(w, Rest) for g, w in zip(got, want)):
            if any(isinstance(g, Rest) for g in got) and any(isinstance(g, Rest) and not isinstance(w, Rest) for g, w in zip(got, want)):
                out.append((path, "unk", "list shapes differ: %s / %s" % (brief(got), brief(want))))
            else:
                out.append((path, "bad", "expected %d element(s) %s, found %d %s" % (len(want), brief(want), len(got), brief(got))))
            return out
        for i, (g, w) in enumerate(zip(got, want)):
            if isinstance(w, Rest):
                if g.cnt != w.cnt:
                    out.append((path, "unk", "number of elements not decided"))
                compare(g.v, w.v, "%s[*]" % path, out, unordered, ignore_nulls)
            else:
                compare(g, w, "%s[%d]" % (path, i), out, unordered, ignore_nulls)
        return out
    if isinstance(got, (dict, list)) and not isinstance(want, (dict, list)):
        out.append((path, "bad", "expected %s, found %s" % (brief(want), brief(got))))
        return out
    e = leaf_eq(got, want)
    if e is not True:
        out.append((path, "bad" if e is False else "unk", "expected %s, found %s" % (brief(want), brief(got))))
    return out


def brief(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------- scenarios and verdicts
class Scenario:
    def __init__(self, sid, driver, args, check, may_raise=False, facts=(), free=()):
        """check(out) -> list of problems; a problem is a string (definite) or ('unk', string)
        free: unknowns that may equal one of several others, [(unknown, [others])]"""
        self.sid, self.driver, self.args, self.check, self.may_raise, self.facts, self.free = sid, driver, args, check, may_raise, facts, free


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


ENGINE = None


def engine():
    global ENGINE
    if ENGINE is None:
        ENGINE = Engine()
    return ENGINE


def decide(sc, seconds=60):
    """-> dict(sid, status, problems, outcomes, steps)"""
    t0 = time.time()
    r = {"sid": sc.sid, "status": "held", "problems": [], "undecided": [], "outcomes": 0, "definite": 0, "steps": 0}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(max(1, int(seconds)))
    E = engine()
    try:
        outs = E.run(sc.driver, sc.args() if callable(sc.args) else sc.args, sc.facts)
        r["steps"] = E.I.steps
        r["outcomes"] = len(outs)
        if not outs:
            r["undecided"].append("no outcome")
        r["undecided"] += ["analysis incomplete: %s" % (n,) for n in sorted(map(str, E.I.notes))]  # paths were left out
        if sc.free:
            outs = [c for o in outs for c in o.cases(sc.free)]
        for o in outs:
            if not o.imprecise:
                r["definite"] += 1
            if o.raised and not sc.may_raise:
                ps = ["raises %s" % o.raise_info]
            else:
                ps = sc.check(o) or []
            if any(not isinstance(p, tuple) for p in ps) and not o.imprecise and not o.feasible():
                r["infeasible"] = r.get("infeasible", 0) + 1
                continue
            for p in ps:
                if isinstance(p, tuple):
                    r["undecided"].append(p[1])
                elif o.imprecise:
                    r["undecided"].append(p + " (on a path that may exist only because of abstraction: %s)" % (o.st.imp,))
                else:
                    r["problems"].append({"text": p, "path": o.facts(), "raise": o.raise_info, "construct": construct(sc, p, o.raise_info)})
    except Timeout:
        r["undecided"].append("time limit")
    except _interp.AnchorMissing as e:
        r["status"] = "anchor"
        r["undecided"].append("anchor missing: %s" % e)
    except RecursionError:
        r["undecided"].append("analysis too deep")
    except MemoryError:
        r["undecided"].append("analysis out of memory")
    except _interp.Unsupported as e:
        r["undecided"].append("unsupported: %s" % e)
    except Exception as e:  # an internal limit of the analysis is never an alarm
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r["undecided"].append("internal: %s %s at %s:%s" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get("VP_DEBUG"):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    if r["status"] != "anchor":
        r["status"] = "violated" if r["problems"] else ("undecided" if r["undecided"] else "held")
    r["wall"] = round(time.time() - t0, 3)
    r["funcs"] = sorted(E.I.funcs_seen)
    r["calls"] = sorted(set(a for a, b in E.I.calls_seen if a.startswith("spine_json_lib")))
    return r


ENTRY = {"load_save_both": "JsonSpineAnimationData.load_data SpineData.default_values", "load_save": "JsonSpineAnimationData.load_data SpineData.to_spine_data_ignoring_default_values", "clean": "SpineAnimationEditor.clean_animation",
         "clean_images": "SpineAnimationEditor.clean_animation", "erase_anims": "SpineAnimationEditor.erase_animations", "erase_skins": "SpineAnimationEditor.erase_skins",
         "erase_skins_then": "SpineAnimationEditor.erase_skins", "edit_twice": "SpineAnimationEditor.erase_skins SpineAnimationEditor.erase_animations SpineAnimationEditor.clean_animation",
         "scale": "SpineAnimationEditor.scale_animation", "scale_twice": "SpineAnimationEditor.scale_animation",
         "scale_clean": "SpineAnimationEditor.scale_animation SpineAnimationEditor.clean_animation", "imgs": "SpineAnimationEditor.get_images_references",
         "two_editors": "SpineAnimationEditor.__init__ SpineAnimationEditor.to_json_data", "save": "SpineAnimationEditor.to_json", "save_images": "SpineAnimationEditor.save_images_json",
         "compare_versions": "SpineVersion.__init__", "compare_version_text": "SpineVersion.__init__", "make_version": "SpineVersion.__init__",
         "graph_heads_tails": "DAGraph.get_heads_id DAGraph.get_tails_id", "graph_cycles": "DAGraph.validate", "graph_order": "DAGraph.sequential_order_of_execution",
         "graph_paths": "DAGraph.get_all_paths", "graph_ids": "DAGraph.add_node", "node_identity": "SpamNode.__eq__ SpamNode.__hash__",
         "doc_graph": "SpineGraphParser.create_from_json_data SpineGraphParser.to_json_data", "container_ops": "SpineGraphContainer.__init__"}
GRAPHOPS = {"add node": "DAGraph.add_node", "remove node": "DAGraph.remove_node_by_id", "add edge": "DAGraph.add_edge", "remove edge": "DAGraph.remove_edge"}
OPERATIONS = {"clean": "clean_animation", "scale": "scale_animation", "images": "get_images_references"}
DEFS = {}


def defs():
    """qualified name -> file:line of the functions of the package"""
    import ast
    if not DEFS:
        for d, _, fs in os.walk(os.path.join(REPO, "spine_json_lib")):
            for f in fs:
                if f.endswith(".py") and os.sep + "test" not in d:
                    p = os.path.join(d, f)
                    for n in ast.parse(open(p).read()).body:
                        for m in n.body if isinstance(n, ast.ClassDef) else [n]:
                            if isinstance(m, ast.FunctionDef):
                                DEFS[(n.name + "." if m is not n else "") + m.name] = "%s:%d" % (os.path.relpath(p, REPO), m.lineno)
    return DEFS


def entry(sc):
    d = sc.driver.split(":")[1]
    if d == "graph_op":
        q = GRAPHOPS.get(sc.args[2], "")
    elif d in ("before_and_after", "same_twice"):
        op = sc.args[1]
        q = "SpineAnimationEditor." + OPERATIONS.get(op, "erase_skins" if "skins" in op else ("erase_animations" if "anim" in op else "to_json_data"))
    else:
        q = ENTRY.get(d, "")
    return ", ".join("%s (%s)" % (x, defs().get(x, "?")) for x in q.split())


def construct(sc, text, info):
    """the source construct a problem is attributed to"""
    import re
    e = entry(sc)
    m = re.search(r" at (spine_json_lib/\S+:\d+)", info or text)
    if text.startswith("raises") and m:
        return "%s reaches the exception raised at %s" % (e, m.group(1))
    ks = re.findall(r"'(\w+)'", text.split(": ")[0])
    w = ENGINE.I.writes
    for k in reversed(ks):
        if k in w:
            return "%s; %s is written at %s" % (e, k, ", ".join("%s in %s" % (a, b.split(":")[-1]) for a, b in sorted(w[k])[:4]))
    return e


def problems(diffs, prefix=""):
    return [("%s%s: %s" % (prefix, p or "result", t)) if k == "bad" else ("unk", "%s%s: %s" % (prefix, p, t)) for p, k, t in diffs]
