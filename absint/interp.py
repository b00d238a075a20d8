"""Abstract interpreter for Python source (values/heap/joins in domain.py, state.py).

The analysed program is never executed: modules are parsed with `ast`, names and callees are
resolved in the abstract heap, loops over unbounded parts of the input run to a fixpoint.
"""
import ast
import os
import sys

from domain import *  # noqa
from state import *  # noqa
from state import Hard
import ops
import state
import lib

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class AnchorMissing(Exception):
    pass


def locals_of(node):
    """Names bound in a function body (not descending into nested scopes)."""
    names, glob, nonl, nested, has_yield = set(), set(), set(), set(), False

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def visit(n):
        nonlocal has_yield
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            nested.add(n)
            for d in n.decorator_list:
                visit(d)
            if not isinstance(n, ast.ClassDef):
                for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                    visit(d)
            return
        if isinstance(n, ast.Lambda):
            nested.add(n)
            for d in n.args.defaults + [x for x in n.args.kw_defaults if x]:
                visit(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for s in ast.walk(n):
                if isinstance(s, ast.NamedExpr):
                    target(s.target)
                if isinstance(s, (ast.Lambda,)):
                    nested.add(s)
            visit(n.generators[0].iter)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            has_yield = True
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split(".")[0])
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            names.add(n.rest)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    return names - glob - nonl, glob, nonl, nested, has_yield


def loads(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}


class Live:
    """Backward liveness: for every statement, the names live after it."""

    def __init__(self, body):
        self.after = {}
        self.block(body, frozenset(), [], [], frozenset())

    def block(self, stmts, out, brk, cont, exc):
        live = out
        for s in reversed(stmts):
            self.after[id(s)] = self.after.get(id(s), frozenset()) | live | exc
            live = self.stmt(s, live, brk, cont, exc)
        return live

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return (out - {s.name}) | loads(s)
        if isinstance(s, ast.If):
            a = self.block(s.body, out, brk, cont, exc)
            b = self.block(s.orelse, out, brk, cont, exc)
            return a | b | loads(s.test)
        if isinstance(s, (ast.For, ast.While)):
            tail = self.block(s.orelse, out, brk, cont, exc)
            head = tail
            tgt = frozenset()
            if isinstance(s, ast.For):
                tgt = frozenset(x.id for x in ast.walk(s.target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
            test = loads(s.test) if isinstance(s, ast.While) else loads(s.target)
            for _ in range(3):
                h = self.block(s.body, head, brk + [out], cont + [head], exc)
                head = head | ((h - tgt) if tgt else h) | test
            self.after[id(s.body)] = head  # live at the loop head
            return head | (loads(s.iter) if isinstance(s, ast.For) else frozenset())
        if isinstance(s, ast.Try) or s.__class__.__name__ == "TryStar":
            fin = self.block(s.finalbody, out, brk, cont, exc)
            hl = frozenset()
            for h in s.handlers:
                hl |= self.block(h.body, fin, brk, cont, exc | fin)
                if h.type:
                    hl |= loads(h.type)
            e = self.block(s.orelse, fin, brk, cont, exc | fin)
            b = self.block(s.body, e, brk, cont, exc | hl | fin)
            return b | hl | fin
        if isinstance(s, ast.With):
            b = self.block(s.body, out, brk, cont, exc)
            for i in s.items:
                b |= loads(i)
            return b
        if isinstance(s, ast.Return) or isinstance(s, ast.Raise):
            return loads(s) | exc
        if isinstance(s, ast.Break):
            return (brk[-1] if brk else frozenset()) | exc
        if isinstance(s, ast.Continue):
            return (cont[-1] if cont else frozenset()) | exc
        if isinstance(s, ast.Match):
            r = out
            for c in s.cases:
                r |= self.block(c.body, out, brk, cont, exc) | loads(c.pattern) | (loads(c.guard) if c.guard else frozenset())
            return r | loads(s.subject)
        if isinstance(s, ast.Assign):
            k = frozenset(t.id for t in s.targets if isinstance(t, ast.Name))
            return (out - k) | loads(s)
        if isinstance(s, ast.AugAssign):
            return out | loads(s) | ({s.target.id} if isinstance(s.target, ast.Name) else frozenset())
        return out | loads(s)


class Outs:
    __slots__ = ("norm", "ret", "brk", "cont", "exc")

    def __init__(self):
        self.norm, self.ret, self.brk, self.cont, self.exc = [], [], [], [], []


DEBUG = False


class Interp:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.ctxs = Ctx()
        self.base = {}
        self.st0 = St(self.base)
        self.modules = {}
        self.mod_src = {}
        self.nids = 0
        self.nodes = {}
        self.infos = {}
        self.notes = set()
        self.funcs_seen = set()
        self.writes = {}
        self.calls_seen = set()
        self.classes = {}
        self.active = {}
        self.fnstack = []
        self.tables = {}
        self.json_input = None
        self.fixpoints = 0
        self.steps = 0
        self.hooks = {}
        self.limit = 48
        self.max_steps = 60_000_000
        self.building = True
        self.enums = {}
        self.loopdeltas = []
        self.idnote = set()
        self.nondet = set()
        self.lenshape = {}
        self.pathkind = lambda p: None
        self.extra_modules = {}
        self.docno = 0

    # ------------------------------------------------------------ utilities
    def note(self, msg, node=None):
        self.notes.add((msg, self.where(node)))

    def where(self, node):
        if node is None:
            return ""
        return "%s:%s" % (getattr(node, "_mod", "?"), getattr(node, "lineno", "?"))

    def wrote(self, t, node):
        """remember the statement that stores to an attribute or element (for reports only)"""
        fn = self.fnstack[-1].qual if self.fnstack else "?"
        if fn.endswith("__init__"):
            return
        e = t
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str):
                self.writes.setdefault(e.slice.value, set()).add((self.where(node), fn))
            e = e.value
        nm = e.attr if isinstance(e, ast.Attribute) else (e.id if isinstance(e, ast.Name) else None)
        if nm:
            self.writes.setdefault(nm, set()).add((self.where(node), fn))

    def nid(self, node):
        n = getattr(node, "_nid", None)
        if n is None:
            self.nids += 1
            n = node._nid = self.nids
            self.nodes[n] = node
        return n

    def index(self, tree, modname):
        for n in ast.walk(tree):
            if isinstance(n, (ast.expr, ast.stmt, ast.comprehension, ast.ExceptHandler)):
                self.nid(n)
                n._mod = modname

    def alloc(self, st, node, obj, extra=None):
        a = self.ctxs.mk(st.ctx, node if isinstance(node, (int, str)) else self.nid(node), extra)
        return self.place(st, a, obj)

    def place(self, st, a, obj):
        old = st.heap.get(a)
        if old is not None and not isinstance(obj, Frame):
            if a in reach(st):
                try:
                    j = joinobj(old, obj, st, st, weak=True, widen=True)
                except Hard:
                    j = old
                if hasattr(j, "summ"):
                    if isinstance(j, Inst):
                        j = j.with_(summ=True)
                    else:
                        j = j.with_(summ=True)
                st.set(a, j)
                return Ref(a)
        st.set(a, obj)
        return Ref(a)

    def implicit(self, st, exc, node, msg=""):
        return [(st, Raise(exc, (), False, self.where(node), None, msg))]

    def maybe(self, st, exc):
        """Could an enclosing handler observe this implicit exception?"""
        for hs in st.trys:
            for h in hs:
                if lib.exc_sub(exc, h):
                    return True
        return False

    # ------------------------------------------------------------ modules
    def load_module(self, name, st=None):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split("."))
        fn = self.extra_modules.get(name)
        if fn is not None:
            pass
        elif os.path.isdir(path) and os.path.exists(os.path.join(path, "__init__.py")):
            fn = os.path.join(path, "__init__.py")
        elif os.path.exists(path + ".py"):
            fn = path + ".py"
        elif os.path.isdir(path):
            fr = self.ctxs.mk(0, "mod", name)
            self.st0.set(fr, Frame({"__name__": C(name)}, None, None))
            m = self.modules[name] = Mod(name, fr)
            return m
        if fn is None:
            raise AnchorMissing("module %s not found" % name)
        src = open(fn, encoding="utf-8").read()
        tree = ast.parse(src, fn)
        self.index(tree, os.path.relpath(fn, self.root))
        self.mod_src[name] = (fn, src, tree)
        fr = self.ctxs.mk(0, "mod", name)
        s0 = self.st0
        s0.set(fr, Frame({"__name__": C(name), "__file__": C(fn)}, None, None))
        m = self.modules[name] = Mod(name, fr)
        # parents first
        if "." in name:
            self.load_module(name.rsplit(".", 1)[0])
        save = s0.fr, s0.ctx, s0.stack
        s0.fr, s0.ctx = fr, self.ctxs.sub(0, "m", name)
        s0.stack = save[2] + (fr,)
        info = FnInfo(tree, name, name, None, False)
        info.locals, info.globals, info.nonlocals = None, frozenset(), frozenset()
        info.live = None
        info.is_module = True
        self.fnstack.append(info)
        o = self.exec_block(tree.body, [s0])
        self.fnstack.pop()
        outs = o.norm
        if len(outs) != 1 or o.exc:
            raise Unsupported("module %s does not evaluate to a single state: %r" % (name, [e for _, e in o.exc]))
        if outs[0] is not s0:
            s0.heap, s0.facts = outs[0].heap, {}
        s0.fr, s0.ctx, s0.stack = save
        if "." in name:
            p, leaf = name.rsplit(".", 1)
            pf = self.modules[p].frame
            s0.set(pf, s0.get(pf).set(leaf, m))
        return m

    def load_all(self):
        base = os.path.join(self.root, self.package.replace(".", "/"))
        names = []
        for dp, dn, fns in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("test", "tests", "__pycache__"))
            for f in sorted(fns):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(dp, f), self.root)[:-3].replace(os.sep, ".")
                    if rel.endswith(".__init__"):
                        rel = rel[: -len(".__init__")]
                    names.append(rel)
        for n in sorted(names) + sorted(self.extra_modules):
            self.load_module(n)
        # what files hold: path -> document
        self.disk = self.alloc(self.st0, "disk", DictO(())).a
        self.freeze()

    def freeze(self):
        self.base.update(self.st0.heap)
        self.st0.heap = {}
        self.building = False

    def fresh(self):
        s = St(self.base)
        s.ctx = self.ctxs.sub(0, "run", None)
        return s

    def lookup(self, dotted):
        """'spine_json_lib.utils:get_tags' -> Val"""
        mod, name = dotted.split(":")
        try:
            m = self.load_module(mod)
        except AnchorMissing:
            raise
        parts = name.split(".")
        st = self.fresh()
        v = self.base[m.frame].vars.get(parts[0]) if m.frame in self.base else self.st0.get(m.frame).vars.get(parts[0])
        if v is None:
            raise AnchorMissing("%s has no %s" % (mod, name))
        for p in parts[1:]:
            outs = ops.getattr_(self, st, v, p, None)
            if not outs or isinstance(outs[0][1], Raise):
                raise AnchorMissing("%s has no %s" % (mod, name))
            v = outs[0][1]
        return v

    # ------------------------------------------------------------ functions
    def make_info(self, node, qual, module, cls):
        i = self.infos.get(id(node))
        if i is None:
            names, glob, nonl, nested, gen = locals_of(node)
            i = FnInfo(node, qual, module, cls, gen)
            a = node.args
            for x in a.posonlyargs + a.args + a.kwonlyargs:
                names.add(x.arg)
            if a.vararg:
                names.add(a.vararg.arg)
            if a.kwarg:
                names.add(a.kwarg.arg)
            i.locals, i.globals, i.nonlocals = frozenset(names), frozenset(glob), frozenset(nonl)
            i.captured = set()
            for n in nested:
                i.captured |= loads(n) | {y for x in ast.walk(n) if isinstance(x, ast.Nonlocal) for y in x.names}
            i.captured |= nonl
            i.haslambda = bool(nested)
            i.is_module = False
            body = node.body if isinstance(node.body, list) else None
            uses_locals = any(isinstance(x, ast.Name) and x.id in ("locals", "vars", "eval", "exec") for x in ast.walk(node))
            i.live = Live(body).after if body is not None and not uses_locals else None
            self.infos[id(node)] = i
        return i

    def bind_params(self, st, fn, args, kwargs, node):
        """args: list of ('E'|'*', val); kwargs: list of (name|None, val). -> (vars) or Raise"""
        a = fn.info.node.args
        pos = a.posonlyargs + a.args
        vs = {}
        flat_args = []
        for k, v in args:
            flat_args.append(v)
        if len(flat_args) > len(pos) and not a.vararg:
            return Raise("TypeError", (), False, self.where(node), None, "too many arguments for " + fn.info.qual)
        for p, v in zip(pos, flat_args):
            vs[p.arg] = v
        if a.vararg:
            vs[a.vararg.arg] = tup(*flat_args[len(pos):])
        extra = []
        names = {p.arg for p in a.args + a.kwonlyargs}
        for k, v in kwargs:
            if k in names and k not in vs:
                vs[k] = v
            elif k in vs:
                return Raise("TypeError", (), False, self.where(node), None, "duplicate argument " + str(k))
            elif a.kwarg:
                extra.append((C(k), v, "must"))
            else:
                return Raise("TypeError", (), False, self.where(node), None, "unexpected argument %s for %s" % (k, fn.info.qual))
        nd = len(fn.defaults)
        for p, d in zip(pos[len(pos) - nd:], fn.defaults):
            vs.setdefault(p.arg, d)
        for k, d in fn.kwdefaults:
            vs.setdefault(k, d)
        for p in pos + a.kwonlyargs:
            if p.arg not in vs:
                return Raise("TypeError", (), False, self.where(node), None, "missing argument %s for %s" % (p.arg, fn.info.qual))
        if a.kwarg:
            vs[a.kwarg.arg] = self.alloc(st, node if node is not None else fn.info.node, DictO(extra), "kw")
        return vs

    def call_fn(self, st, fn, args, kwargs, node, tag=None):
        info = fn.info
        self.funcs_seen.add(info.qual)
        self.calls_seen.add((self.where(node), info.qual))
        vs = self.bind_params(st, fn, args, kwargs, node)
        if isinstance(vs, Raise):
            return [(st, vs)]
        key = (id(info), fn.frame, tuple(sorted(((k, v) for k, v in vs.items()), key=lambda t: t[0])))
        if any(i is info for i in self.fnstack):
            act = self.active.get(key)
            if act is not None:
                return self.reenter(st, key, act, fn, vs, node)
        depth = sum(1 for i in self.fnstack if i is info)
        if depth > 25:
            self.note("recursion too deep in " + info.qual, node)
            return [(st, Top(None, "recursion"))]
        recursive = self.may_recurse(info)
        octx, ofr, ostack, otrys = st.ctx, st.fr, st.stack, st.trys
        ctx = self.ctxs.sub(octx, self.nid(node) if node is not None else "ext", (info.qual, tag))
        fr = self.ctxs.mk(ctx, "frame", None)
        st.ctx, st.fr, st.stack = ctx, fr, ostack + (fr,)
        if not recursive:
            outs = self.run_body(st, fn, fr, vs)
        else:
            outs = self.run_recursive(st, key, fn, fr, vs)
        res = []
        for s, v in outs:
            s.ctx, s.fr, s.stack, s.trys = octx, ofr, ostack, otrys
            res.append((s, v))
        return self.merge_vals(res)

    def merge_vals(self, res):
        if len(res) < 2:
            return res
        ok, bad = [], []
        for s, v in res:
            if isinstance(v, Raise):
                bad.append((s, v))
            else:
                ok.append((s, v))
        if len(ok) > 1:
            for s, v in ok:
                s.ret = v
            ms = merge([s for s, _ in ok], limit=self.limit)
            ok = []
            for s in ms:
                v, s.ret = s.ret, None
                ok.append((s, v))
        if len(bad) > 1:
            groups = {}
            for s, v in bad:
                groups.setdefault((v.key(), v.where), []).append((s, v))
            bad = []
            for g in groups.values():
                ms = merge([s for s, _ in g], limit=self.limit)
                bad.extend((s, g[0][1]) for s in ms)
        return ok + bad

    def may_recurse(self, info):
        r = getattr(info, "rec", None)
        if r is None:
            # cheap syntactic over-approximation: some name/attribute called inside equals own name
            nm = getattr(info.node, "name", None)
            r = False
            if nm is not None:
                for n in ast.walk(info.node):
                    if isinstance(n, ast.Name) and n.id == nm:
                        r = True
                    elif isinstance(n, ast.Attribute) and n.attr == nm and not nm.startswith("__"):
                        r = True
            if nm in ("traverse_spine_data", ) or info.qual in self.force_rec:
                r = True
            info.rec = r
        return r

    force_rec = frozenset()

    def run_body(self, st, fn, fr, vs):
        info = fn.info
        st.set(fr, Frame(vs, fn.frame, info))
        self.fnstack.append(info)
        try:
            if isinstance(info.node, ast.Lambda):
                res = self.ev(info.node.body, st)
            else:
                if info.isgen:
                    acc = self.alloc(st, info.node, ListO((), "iter"), "yield")
                    st.set(fr, st.get(fr).set("$yield", acc))
                o = self.exec_block(info.node.body, [st])
                if info.isgen:
                    res = [(s, acc) for s in o.norm] + [(s, acc) for s, _ in o.ret]
                else:
                    res = [(s, NONE) for s in o.norm] + o.ret
                res += o.exc
        finally:
            self.fnstack.pop()
        if not info.haslambda:
            for s, _ in res:
                s.heap.pop(fr, None)
        return res

    # recursion: per-entry tabulated fixpoint
    def run_recursive(self, st, key, fn, fr, vs):
        tab = {"entries": [], "fr": fr, "ctx": st.ctx, "stack": st.stack}
        prev = self.active.get(key)
        self.active[key] = tab
        e0 = {"in": st.fork(), "out": [], "dirty": True, "deps": set()}
        tab["entries"].append(e0)
        try:
            rounds = 0
            while True:
                dirty = [e for e in tab["entries"] if e["dirty"]]
                if not dirty:
                    break
                rounds += 1
                if rounds > 400:
                    self.note("recursion fixpoint not reached", fn.info.node)
                    break
                e = dirty[-1]
                e["dirty"] = False
                tab["cur"] = e
                s = e["in"].fork()
                outs = self.run_body(s, fn, fr, vs)
                norm = [(x, v) for x, v in outs if not isinstance(v, Raise)]
                exc = [(x, v) for x, v in outs if isinstance(v, Raise)]
                changed = False
                for x, v in norm:
                    x.ret = v
                    x.heap.pop(fr, None)
                    hit = False
                    for i, (y, _) in enumerate(e["out"]):
                        j = joinst(y, x, widen=True)
                        if j is not None:
                            hit = True
                            if not same(y, j):
                                e["out"][i] = (j, None)
                                changed = True
                            break
                    if not hit:
                        e["out"].append((x, None))
                        changed = True
                e["exc"] = exc
                if changed:
                    for f in tab["entries"]:
                        if id(e) in f["deps"]:
                            f["dirty"] = True
        finally:
            if prev is None:
                self.active.pop(key, None)
            else:
                self.active[key] = prev
        res = []
        for y, _ in e0["out"]:
            s = y.fork()
            v, s.ret = s.ret, None
            res.append((s, v))
        return res + [(s.fork(), v) for s, v in e0.get("exc", [])]

    def reenter(self, st, key, tab, fn, vs, node):
        octx, ofr, ostack, otrys = st.ctx, st.fr, st.stack, st.trys
        fr = tab["fr"]
        base = tab["stack"]
        saved = [(a, st.heap.get(a)) for a in ostack[len(base) - 1:] if a in st.heap]
        # keep everything the suspended activations can see alive in the abstract heap
        otmps = st.tmps
        keep = []
        for _, o in saved:
            keep.extend(o.vars.values())
        st.tmps = otmps + (tup(*[v for v in keep if isinstance(v, Val)]),)
        s = st.fork()
        st.tmps = otmps
        for a, _ in saved:
            s.heap.pop(a, None)
        s.ctx, s.fr, s.stack = tab["ctx"], fr, base
        # tmps are host roots of suspended activations: erase for table matching
        hit = None
        for e in tab["entries"]:
            t = e["in"]
            j = joinst(t, s, widen=True)
            if j is not None:
                j.tmps = t.tmps + tuple(v for v in s.tmps if v not in t.tmps)
                if not same(t, j):
                    e["in"] = j
                    e["dirty"] = True
                hit = e
                break
        if hit is None:
            hit = {"in": s, "out": [], "dirty": True, "deps": set()}
            tab["entries"].append(hit)
        cur = tab.get("cur")
        hit["deps"].add(id(cur)) if False else cur["deps"].add(id(hit))
        res = []
        for y, _ in hit["out"]:
            x = y.fork()
            v, x.ret = x.ret, None
            for a, o in saved:
                x.heap[a] = o
            for a, o in st.heap.items():
                if a not in x.heap:
                    x.heap[a] = o
            x.ctx, x.fr, x.stack, x.trys, x.tmps = octx, ofr, ostack, otrys, otmps
            res.append((x, v))
        return res

    # ------------------------------------------------------------ calls
    def call(self, st, f, args, kwargs, node, tag=None):
        """-> [(st, Val|Raise)]. args: [('E', v)]"""
        outs = []
        for s, fv in ops.force(self, st, f):
            outs.extend(self.call1(s, fv, args, kwargs, node, tag))
        return outs

    def call1(self, st, f, args, kwargs, node, tag):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step budget exhausted")
        if isinstance(f, Fn):
            h = self.hooks.get(f.info.qual)
            if h is not None:
                r = h(self, st, args, kwargs, node)
                if r is not None:
                    return r
            return self.call_fn(st, f, args, kwargs, node, tag)
        if isinstance(f, Bound):
            return self.call(st, f.fn, [("E", f.self_)] + list(args), kwargs, node, tag)
        if isinstance(f, Cls):
            return self.instantiate(st, f, args, kwargs, node)
        if isinstance(f, Bi):
            n = len(args)
            st.tmps = st.tmps + (tup(*[v for _, v in args]),) + tuple(v for _, v in kwargs) + (f,)
            k = 2 + len(kwargs)
            outs = lib.call(self, st, f, [v for _, v in args], dict(kwargs), node)
            for s, _ in outs:
                s.tmps = s.tmps[:-k]
            return outs
        if isinstance(f, Wrapped):
            return self.call(st, f.fn, args, kwargs, node, tag)
        if isinstance(f, Ref):
            o = st.get(f.a)
            if isinstance(o, Inst):
                m = ops.class_attr(self, st, o.cls, "__call__")
                if m is not None:
                    return self.call(st, m, [("E", f)] + list(args), kwargs, node, tag)
        if isinstance(f, C) and f.v is None or isinstance(f, (C, Cat)):
            return self.implicit(st, "TypeError", node, "not callable: %r" % (f,))
        self.note("call of unknown callee %r" % (f,), node)
        # an unknown callee may do anything to its arguments: havoc reachable mutable args
        return [(st, Top(None, "unknown callee"))]

    def instantiate(self, st, cls, args, kwargs, node):
        if cls.kind == "enum":
            return lib.enum_call(self, st, cls, args, node)
        if cls.kind in ("namedtuple", "dataclass"):
            return lib.record_new(self, st, cls, args, kwargs, node)
        new = ops.class_attr(self, st, cls, "__new__")
        outs = []
        if new is not None and not isinstance(new, Bi):
            fnv = new.fn if isinstance(new, Wrapped) else new
            made = self.call(st, fnv, [("E", cls)] + list(args), kwargs, node, "new")
        else:
            ref = self.alloc(st, node if node is not None else "ext", Inst(cls, {}), cls.qual)
            made = [(st, ref)]
        for s, r in made:
            if isinstance(r, Raise):
                outs.append((s, r))
                continue
            init = ops.class_attr(self, s, cls, "__init__")
            o = s.get(r.a) if isinstance(r, Ref) else None
            if init is None or isinstance(init, Bi) or not isinstance(o, Inst):
                if isinstance(init, Bi) and init.name == "exc.__init__":
                    s.set(r.a, o.with_(attrs=dict(o.attrs, args=tup(*[v for _, v in args]))))
                outs.append((s, r))
                continue
            s.tmps = s.tmps + (r,)
            for s2, v in self.call(s, init, [("E", r)] + list(args), kwargs, node, "init"):
                s2.tmps = s2.tmps[:-1]
                outs.append((s2, v if isinstance(v, Raise) else r))
        return outs

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, states):
        o = Outs()
        cur = states
        for i, s in enumerate(stmts):
            if not cur:
                break
            cur = self.exec_stmt(s, cur, o)
            if len(cur) > 1:
                cur = merge(cur, limit=self.limit)
        o.norm = cur
        return o

    def drop_dead(self, st, node):
        info = self.fnstack[-1]
        live = info.live
        if live is None:
            return
        la = live.get(id(node))
        if la is None:
            return
        f = st.heap.get(st.fr)
        if f is None or f.info is not info:
            return
        dead = [n for n in f.vars if n not in la and n not in info.captured and n[0] != "$"]
        if dead:
            d = {k: v for k, v in f.vars.items() if k not in dead}
            st.heap[st.fr] = Frame(d, f.parent, f.info)

    def exec_stmt(self, node, states, o):
        out = []
        m = getattr(self, "x_" + node.__class__.__name__, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (node.__class__.__name__, self.where(node)))
        if isinstance(node, (ast.For, ast.While)):
            # loops take all states together
            res = m(node, states, o)
            for s in res:
                self.drop_dead(s, node)
            return res
        for st in states:
            for s in m(node, st, o):
                self.drop_dead(s, node)
                out.append(s)
        return out

    def split(self, outs, o):
        """separate raises from values"""
        ok = []
        for s, v in outs:
            if isinstance(v, Raise):
                o.exc.append((s, v))
            else:
                ok.append((s, v))
        return ok

    def x_Expr(self, node, st, o):
        if isinstance(node.value, ast.Constant):
            return [st]
        return [s for s, v in self.split(self.ev(node.value, st), o)]

    def x_Pass(self, node, st, o):
        return [st]

    def x_Global(self, node, st, o):
        return [st]

    x_Nonlocal = x_Global

    def x_Import(self, node, st, o):
        for a in node.names:
            if a.name.split(".")[0] == self.package.split(".")[0]:
                self.load_nested(st, a.name)
                if a.asname:
                    v = self.modules[a.name]
                    self.setname(st, a.asname, v)
                else:
                    self.setname(st, a.name.split(".")[0], self.modules[a.name.split(".")[0]])
            else:
                self.setname(st, a.asname or a.name.split(".")[0], Bi(a.name if a.asname else a.name.split(".")[0]))
        return [st]

    def load_nested(self, st, name):
        # module loading works on st0; when loading is in progress st is st0
        if name in self.modules:
            return
        if not self.building:
            raise Unsupported("late import of " + name)
        fr, ctx, stack = st.fr, st.ctx, st.stack
        if st is not self.st0:
            old = self.st0
            self.st0 = st
        self.load_module(name)
        st.fr, st.ctx, st.stack = fr, ctx, stack

    def x_ImportFrom(self, node, st, o):
        mod = node.module or ""
        if node.level:
            cur = st.get(self.modframe(st)).vars["__name__"].v
            parts = cur.split(".")
            f = st.get(self.modframe(st)).vars.get("__file__")
            is_pkg = f is not None and f.v.endswith("__init__.py")
            drop = node.level - (1 if is_pkg else 0)
            parts = parts[: len(parts) - drop] if drop else parts
            mod = ".".join(parts + ([mod] if mod else []))
        if mod.split(".")[0] == self.package.split(".")[0]:
            self.load_nested(st, mod)
            m = self.modules[mod]
            for a in node.names:
                vars_ = st.get(m.frame).vars
                if a.name == "*":
                    for k, v in list(vars_.items()):
                        if not k.startswith("_"):
                            self.setname(st, k, v)
                    continue
                v = vars_.get(a.name)
                if v is None:
                    try:
                        self.load_nested(st, mod + "." + a.name)
                        v = self.modules[mod + "." + a.name]
                    except AnchorMissing:
                        o.exc.append((st, Raise("ImportError", (), False, self.where(node), None, "cannot import %s from %s" % (a.name, mod))))
                        return []
                self.setname(st, a.asname or a.name, v)
        elif mod == "__future__":
            pass
        else:
            for a in node.names:
                self.setname(st, a.asname or a.name, Bi(mod + "." + a.name))
        return [st]

    def modframe(self, st):
        fr = st.fr
        while True:
            f = st.get(fr)
            if f.parent is None:
                return fr
            fr = f.parent

    # names
    def setname(self, st, name, v):
        f = st.get(st.fr)
        info = f.info
        if info is not None and not getattr(info, "is_module", False):
            if name in info.globals:
                mf = self.modframe(st)
                st.set(mf, st.get(mf).set(name, v))
                return
            if name in info.nonlocals:
                p = f.parent
                while p is not None:
                    pf = st.get(p)
                    if name in pf.vars or (pf.info is not None and pf.info.locals and name in pf.info.locals):
                        st.set(p, pf.set(name, v))
                        return
                    p = pf.parent
        if name.startswith("__") and not name.endswith("__") and "$class" in f.vars:
            name = self.mangle(name)
        st.set(st.fr, f.set(name, v))

    def getname(self, st, name):
        v = self.getname1(st, name)
        if v is None and name.startswith("__") and not name.endswith("__"):
            v = self.getname1(st, self.mangle(name))
        return v

    def getname1(self, st, name):
        fr = st.fr
        first = True
        while fr is not None:
            f = st.get(fr)
            if f is None:
                return None
            v = f.vars.get(name)
            if v is not None:
                # class frames are skipped by nested functions: they are never parents
                return v
            fr = f.parent
        return lib.builtin(name)

    def assign(self, t, v, st, node):
        """-> [(st, None|Raise)]"""
        if isinstance(t, ast.Name):
            self.setname(st, t.id, v)
            return [(st, None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, node)
        if isinstance(t, (ast.Tuple, ast.List)):
            res = []
            for s, elems in ops.unpack(self, st, v, t.elts, node):
                if isinstance(elems, Raise):
                    res.append((s, elems))
                    continue
                cur = [(s, None)]
                for tt, x in zip(t.elts, elems):
                    nxt = []
                    for s2, r in cur:
                        if isinstance(r, Raise):
                            nxt.append((s2, r))
                        else:
                            nxt.extend(self.assign(tt, x, s2, node))
                    cur = nxt
                res.extend(cur)
            return res
        if isinstance(t, ast.Attribute):
            st.tmps = st.tmps + (v,)
            outs = self.evf(t.value, st)
            res = []
            for s, ov in outs:
                s.tmps = s.tmps[:-1]
                if isinstance(ov, Raise):
                    res.append((s, ov))
                else:
                    res.extend(ops.setattr_(self, s, ov, t.attr, v, node))
            self.wrote(t, node)
            return res
        if isinstance(t, ast.Subscript):
            self.wrote(t, node)
            st.tmps = st.tmps + (v,)
            res = []
            for s, vs in self.evs([t.value, t.slice], st):
                s.tmps = s.tmps[:-1]
                if isinstance(vs, Raise):
                    res.append((s, vs))
                    continue
                for s2, cv in ops.force(self, s, vs[0]):
                    for s3, kv in ops.force(self, s2, vs[1]):
                        res.extend(ops.setitem(self, s3, cv, kv, v, node))
            return res
        raise Unsupported("assignment target " + t.__class__.__name__)

    def assign_to(self, t, v, st, o, node):
        res = []
        for s, r in self.assign(t, v, st, node):
            if isinstance(r, Raise):
                o.exc.append((s, r))
            else:
                res.append(s)
        return res

    def x_Assign(self, node, st, o):
        cur = self.split(self.ev(node.value, st), o)
        res = []
        for s, v in cur:
            ss = [s]
            for t in node.targets:
                nx = []
                for x in ss:
                    nx.extend(self.assign_to(t, v, x, o, node))
                ss = nx
            res.extend(ss)
        return res

    def x_AnnAssign(self, node, st, o):
        f = st.get(st.fr)
        if node.value is None:
            if isinstance(node.target, ast.Name):
                ann = f.vars.get("$ann")
                if ann is not None:
                    self.setname(st, "$ann", tup(*([x for _, x, _ in ann.segs] + [C(node.target.id)])))
            return [st]
        res = []
        for s, v in self.split(self.ev(node.value, st), o):
            ann = s.get(s.fr).vars.get("$ann") if isinstance(s.get(s.fr), Frame) else None
            if ann is not None and isinstance(node.target, ast.Name):
                self.setname(s, "$ann", tup(*([x for _, x, _ in ann.segs] + [C(node.target.id)])))
            res.extend(self.assign_to(node.target, v, s, o, node))
        return res

    def x_AugAssign(self, node, st, o):
        t = node.target
        if not isinstance(t, ast.Name):
            self.wrote(t, node)
        if isinstance(t, ast.Name):
            load = ast.copy_location(ast.Name(t.id, ast.Load()), t)
            outs = self.evs([self.cached(node, "ld", load), node.value], st)
            res = []
            for s, vs in outs:
                if isinstance(vs, Raise):
                    o.exc.append((s, vs))
                    continue
                for s2, v in self.split(ops.inplace(self, s, node.op, vs[0], vs[1], node), o):
                    res.extend(self.assign_to(t, v, s2, o, node))
            return res
        if isinstance(t, ast.Attribute):
            res = []
            for s, vs in self.evs([t.value, node.value], st):
                if isinstance(vs, Raise):
                    o.exc.append((s, vs))
                    continue
                for s1, ob in ops.force(self, s, vs[0]):
                    for s2, cur in self.split(ops.getattr_(self, s1, ob, t.attr, node), o):
                        for s3, v in self.split(ops.inplace(self, s2, node.op, cur, vs[1], node), o):
                            for s4, r in ops.setattr_(self, s3, ob, t.attr, v, node):
                                if isinstance(r, Raise):
                                    o.exc.append((s4, r))
                                else:
                                    res.append(s4)
            return res
        if isinstance(t, ast.Subscript):
            res = []
            for s, vs in self.evs([t.value, t.slice, node.value], st):
                if isinstance(vs, Raise):
                    o.exc.append((s, vs))
                    continue
                for s1, ob in ops.force(self, s, vs[0]):
                    for s1b, kv in ops.force(self, s1, vs[1]):
                        for s2, cur in self.split(ops.getitem(self, s1b, ob, kv, node), o):
                            for s3, v in self.split(ops.inplace(self, s2, node.op, cur, vs[2], node), o):
                                for s4, r in ops.setitem(self, s3, ob, kv, v, node):
                                    if isinstance(r, Raise):
                                        o.exc.append((s4, r))
                                    else:
                                        res.append(s4)
            return res
        raise Unsupported("augmented target")

    def cached(self, node, key, new):
        d = getattr(node, "_cache", None)
        if d is None:
            d = node._cache = {}
        if key not in d:
            d[key] = new
            new._mod = getattr(node, "_mod", "?")
            self.nid(new)
        return d[key]

    def x_Delete(self, node, st, o):
        cur = [st]
        for t in node.targets:
            nx = []
            for s in cur:
                if isinstance(t, ast.Name):
                    f = s.get(s.fr)
                    if t.id in f.vars:
                        d = dict(f.vars)
                        del d[t.id]
                        s.set(s.fr, Frame(d, f.parent, f.info))
                    nx.append(s)
                elif isinstance(t, ast.Attribute):
                    self.wrote(t, node)
                    for s1, ob in self.split(self.evf(t.value, s), o):
                        for s2, r in ops.delattr_(self, s1, ob, t.attr, node):
                            if isinstance(r, Raise):
                                o.exc.append((s2, r))
                            else:
                                nx.append(s2)
                elif isinstance(t, ast.Subscript):
                    self.wrote(t, node)
                    for s1, vs in self.evs([t.value, t.slice], s):
                        if isinstance(vs, Raise):
                            o.exc.append((s1, vs))
                            continue
                        for s2, ob in ops.force(self, s1, vs[0]):
                            for s3, kv in ops.force(self, s2, vs[1]):
                                for s4, r in ops.delitem(self, s3, ob, kv, node):
                                    if isinstance(r, Raise):
                                        o.exc.append((s4, r))
                                    else:
                                        nx.append(s4)
            cur = nx
        return cur

    def x_Return(self, node, st, o):
        if node.value is None:
            o.ret.append((st, NONE))
        else:
            for s, v in self.split(self.ev(node.value, st), o):
                o.ret.append((s, v))
        return []

    def x_Break(self, node, st, o):
        o.brk.append(st)
        return []

    def x_Continue(self, node, st, o):
        o.cont.append(st)
        return []

    def x_Raise(self, node, st, o):
        if node.exc is None:
            f = st.get(st.fr)
            cur = None
            fr = st.fr
            cur = f.vars.get("$exc")
            if isinstance(cur, Bi) and isinstance(cur.extra, Raise):
                o.exc.append((st, cur.extra))
            else:
                o.exc.append((st, Raise("RuntimeError", (), True, self.where(node))))
            return []
        for s, v in self.split(self.evf(node.exc, st), o):
            exc, val = "Exception", v
            if isinstance(v, (Cls, Bi)):
                exc = v if isinstance(v, Cls) else v.name
                if isinstance(v, Cls):
                    for s2, iv in self.call(s, v, [], [], node):
                        if isinstance(iv, Raise):
                            o.exc.append((s2, iv))
                        else:
                            o.exc.append((s2, Raise(v, (), True, self.where(node), iv)))
                    continue
            elif isinstance(v, Ref):
                ob = s.get(v.a)
                if isinstance(ob, Inst):
                    exc = ob.cls if isinstance(ob.cls, Cls) else ob.cls.name
            elif isinstance(v, Top):
                exc = "Exception"
            o.exc.append((s, Raise(exc, (), True, self.where(node), val)))
        return []

    def x_Assert(self, node, st, o):
        res = []
        for s, b in self.cond(node.test, st):
            if isinstance(b, Raise):
                o.exc.append((s, b))
            elif b:
                res.append(s)
            else:
                o.exc.append((s, Raise("AssertionError", (), True, self.where(node))))
        return res

    def x_If(self, node, st, o):
        tr, fa = [], []
        for s, b in self.cond(node.test, st):
            if isinstance(b, Raise):
                o.exc.append((s, b))
            elif b:
                tr.append(s)
            else:
                fa.append(s)
        res = []
        for ss, body in ((tr, node.body), (fa, node.orelse)):
            if not ss:
                continue
            ss = merge(ss, limit=self.limit)
            oo = self.exec_block(body, ss)
            self.absorb(o, oo)
            res.extend(oo.norm)
        return res

    def absorb(self, o, oo, loop=False):
        o.ret += oo.ret
        o.exc += oo.exc
        if not loop:
            o.brk += oo.brk
            o.cont += oo.cont

    def x_While(self, node, states, o):
        done = []
        brk = []
        entry = {}
        by_ctx = {}
        for s in states:
            by_ctx.setdefault(s.ctx, []).append(s)
        for ctx0, heads in by_ctx.items():
            seen = []
            it = 0
            cur = heads
            vague = wide = 0
            while cur:
                wr = vague >= 6 or it >= 400
                wide += wr
                if wide > 60:
                    self.note("while loop did not stabilise", node)
                    break
                nxt = []
                n = 0
                c = self.ctxs.sub(ctx0, self.nid(node), "WR" if wr else ("W", it))
                for s in cur:
                    if not wr:
                        s.ctx = c  # what the test makes is not what it made the last time
                    outs = self.cond(node.test, s)
                    n = max(n, len(outs))
                    for s2, b in outs:
                        if isinstance(b, Raise):
                            s2.ctx = ctx0
                            o.exc.append((s2, b))
                        elif b:
                            nxt.append(s2)
                        else:
                            s2.ctx = ctx0
                            done.append(s2)
                for s in nxt:
                    s.ctx = c
                    if wr:
                        s.mark("while loop summarised")
                nxt = merge(nxt, widen=wr, limit=self.limit)
                oo = self.exec_block(node.body, nxt)
                vague += n > 1 or len(oo.norm) + len(oo.cont) + len(oo.brk) + len(oo.ret) > len(nxt)
                for s, v in oo.ret:
                    s.ctx = ctx0
                for s, v in oo.exc:
                    s.ctx = ctx0
                self.absorb(o, oo, True)
                for s in oo.brk:
                    s.ctx = ctx0
                    brk.append(s)
                new = []
                for s in oo.norm + oo.cont:
                    s.ctx = ctx0
                    if wr:
                        self.end_iter(s, c)
                    new.append(s)
                new = merge(new, widen=wr, limit=self.limit)
                cur = []
                state.REACH.append({})
                for s in new:
                    add = True
                    for i, h in enumerate(seen):
                        j = joinst(h, s, widen=wr)
                        if j is not None:
                            if same(h, j):
                                add = False
                            else:
                                seen[i] = j
                                s = j.fork()
                            break
                    else:
                        seen.append(s.fork())
                    if add:
                        cur.append(s)
                state.REACH.pop()
                it += 1
        done = merge(done, limit=self.limit)
        if node.orelse and done:
            oo = self.exec_block(node.orelse, done)
            self.absorb(o, oo)
            done = oo.norm
        return done + brk

    def x_For(self, node, states, o):
        res, brks = [], []
        for st in states:
            for s, it in self.split(self.evf(node.iter, st), o):
                def body(s2, elem):
                    oo = Outs()
                    ss = self.assign_to(node.target, elem, s2, oo, node)
                    if ss:
                        b = self.exec_block(node.body, ss)
                        oo.ret += b.ret
                        oo.exc += b.exc
                        oo.brk += b.brk
                        oo.cont += b.cont
                        oo.norm += b.norm
                    return oo
                r, k = self.iterate(s, it, node, body, o)
                res += r
                brks += k
        res = merge(res, limit=self.limit)
        if node.orelse and res:
            oo = self.exec_block(node.orelse, res)
            self.absorb(o, oo)
            res = oo.norm
        return res + brks

    # the generic loop engine -------------------------------------------
    def end_iter(self, st, c, head=None, vals=(), musts=None, cnt=None):
        """The iteration of the summarised loop context c is over: what it allocated and the
        element it singled out are folded into the objects standing for all iterations.
        -> the values vals rewritten accordingly"""
        info, addrinfo = self.ctxs.info, self.ctxs.addrinfo
        roots = []
        for v in vals:
            if isinstance(v, Raise):
                roots += [x for x in tuple(v.args) + (v.val,) if isinstance(x, Val)]
            elif isinstance(v, Val):
                roots.append(v)
        r = reach(st, roots)
        amap = {}
        dead = []
        for a, ob in st.heap.items():
            if isinstance(ob, (Frame, ClsO)):
                continue
            cx, nid, ex = addrinfo[a]
            if nid == "mat" and cx == c:
                t = ex
            elif c in info[cx][1]:
                if isinstance(ex, tuple) and len(ex) == 3 and ex[0] == "S" and ex[1] == c:
                    continue
                t = None
            else:
                continue
            if a not in r:
                dead.append(a)
                continue
            amap[a] = self.ctxs.mk(cx, nid, ("S", c, ex)) if t is None else t
        for a in dead:
            del st.heap[a]
        suf = "!%d" % c

        def sym(s):
            if s.org is None or not s.name.endswith(suf):
                return s
            o = s.org
            if cnt is not None and o.own == cnt:
                return Sym("%s~%d" % (o.name, c), o.types, o.truth, True, o.group, o.ne, o.nochars, o.own, o)
            return o
        return self.rewrite(st, amap, sym, suf, head, vals, musts)

    def leave_loop(self, st, c, vals=()):
        """the elements already visited by loop c are just elements again"""
        suf = "~%d" % c

        def sym(s):
            return s.org if s.org is not None and s.name.endswith(suf) else s
        return self.rewrite(st, {}, sym, None, None, vals, None)

    def rewrite(self, st, amap, sym, suf, head, vals, musts):
        memo = {}
        hh = head.heap if head is not None else {}

        def sub(v):
            if v is None or isinstance(v, (C, Cls, Mod, Top, Absent)):
                return v
            m = memo.get(v)
            if m is None:
                m = memo[v] = sub1(v)
            return m

        def sub1(v):
            if isinstance(v, Ref):
                t = amap.get(v.a)
                return v if t is None else Ref(t)
            if isinstance(v, (Sym, Cat, Term, Poly)):
                return map_scalar(v, sym)
            if isinstance(v, Idx):
                b = map_scalar(v.base, sym)
                return v if b is v.base else Idx(b, v.cnt)
            if isinstance(v, Tup):
                g = tuple((k, sub(x), n) for k, x, n in v.segs)
                return v if all(x[1] is y[1] for x, y in zip(g, v.segs)) else Tup(g, v.shape)
            if isinstance(v, Un):
                return mkun([sub(x) for x in v.vals])
            if isinstance(v, Ch):
                al = tuple((lab, sub(x)) for lab, x in v.alts)
                tok = v.tok
                if suf is not None and isinstance(tok, str) and tok.endswith(suf):
                    tok = tok[:-len(suf)]
                    return Ch(tok, al)
                return v if all(x[1] is y[1] for x, y in zip(al, v.alts)) else Ch(tok, al)
            if isinstance(v, Bound):
                a, b = sub(v.self_), sub(v.fn)
                return v if a is v.self_ and b is v.fn else Bound(a, b)
            if isinstance(v, Bi):
                a = sub(v.self_) if isinstance(v.self_, Val) else v.self_
                e = v.extra
                if isinstance(e, Val):
                    e = sub(e)
                elif isinstance(e, tuple):
                    e = tuple(sub(x) if isinstance(x, Val) else x for x in e)
                return v if a is v.self_ and e == v.extra else Bi(v.name, a, e)
            if isinstance(v, Fn):
                d = tuple(sub(x) for x in v.defaults)
                k = tuple((n, sub(x)) for n, x in v.kwdefaults)
                return v if d == v.defaults and k == v.kwdefaults else Fn(v.info, v.frame, d, k)
            if isinstance(v, InstDict):
                t = amap.get(v.a)
                return v if t is None else InstDict(t)
            if isinstance(v, Len):
                t = amap.get(v.a)
                return v if t is None else Top(frozenset(["int"]))
            if isinstance(v, SuperV):
                return SuperV(v.cls, sub(v.self_))
            if isinstance(v, Wrapped):
                return v
            return v

        def subobj(ob, a, fold):
            if isinstance(ob, Frame):
                d = {k: sub(v) for k, v in ob.vars.items()}
                return ob if all(d[k] is v for k, v in ob.vars.items()) else Frame(d, ob.parent, ob.info)
            if isinstance(ob, ClsO):
                d = {k: sub(v) for k, v in ob.attrs.items()}
                return ob if all(d[k] is v for k, v in ob.attrs.items()) else ClsO(d)
            if isinstance(ob, Inst):
                d = {k: sub(v) for k, v in ob.attrs.items()}
                return ob if all(d[k] is v for k, v in ob.attrs.items()) else ob.with_(attrs=d)
            if isinstance(ob, ListO):
                g = tuple((k, sub(x), n) for k, x, n in ob.segs)
                return ob if all(x[1] is y[1] for x, y in zip(g, ob.segs)) else ob.with_(segs=g)
            if isinstance(ob, DictO):
                d, ch = {}, False
                for k, v, p in ob.items:
                    k2, v2 = sub(k), sub(v)
                    ch = ch or k2 is not k or v2 is not v
                    if k2 is not k and is_multi(k2) and p in ("must", "may") and not fold and not ob.summ:
                        if p == "must" and musts is not None:
                            musts.add((a, k2))
                        p = "star"
                    if k2 in d:
                        v0, p0 = d[k2]
                        d[k2] = (ops.jw(v0, v2, st), "all" if "all" in (p0, p) else p0 if p0 == p else "star")
                        ch = True
                    else:
                        d[k2] = (v2, p)
                return ob.with_(items=[(k, v, p) for k, (v, p) in d.items()]) if ch else ob
            if isinstance(ob, SetO):
                d, ch = {}, False
                for k, p in ob.items:
                    k2 = sub(k)
                    ch = ch or k2 is not k
                    if k2 is not k and is_multi(k2) and p in ("must", "may") and not fold and not ob.summ:
                        if p == "must" and musts is not None:
                            musts.add((a, k2))
                        p = "star"
                    if k2 in d:
                        d[k2] = "all" if "all" in (d[k2], p) else d[k2] if d[k2] == p else "star"
                    else:
                        d[k2] = p
                return ob.with_(items=list(d.items())) if ch else ob
            return ob

        for a, ob in list(st.heap.items()):
            if a in amap or hh.get(a) is ob:
                continue
            o2 = subobj(ob, a, False)
            if o2 is not ob:
                st.heap[a] = o2
        for a, t in amap.items():
            ob = subobj(st.heap.pop(a), a, True).with_(summ=True)
            old = st.heap.get(t)
            if old is not None:
                try:
                    ob = joinobj(old, ob, st, st, weak=True, widen=True)
                except Hard:
                    self.note("could not fold %r" % (ob,))
            st.heap[t] = ob
        if st.facts:
            def stale(k, v):
                for x in k if isinstance(k, tuple) else (k,):
                    if isinstance(x, Val) and sub(x) is not x:
                        return True
                    if isinstance(x, str) and suf is not None and k[0] == "ch" and x.endswith(suf):
                        return True
                return False
            st.facts = {k: v for k, v in st.facts.items() if not stale(k, v)}
            if st.alt:
                def clean(gs):
                    return tuple(tuple((frozenset((k, v) for k, v in d if not stale(k, v)), clean(g2)) for d, g2 in g) for g in gs)
                st.alt = clean(st.alt)
        st.tmps = tuple(sub(v) for v in st.tmps)
        if isinstance(st.ret, Val):
            st.ret = sub(st.ret)
        if st.eff:
            st.eff = tuple(tuple(sub(x) if isinstance(x, Val) else x for x in e) for e in st.eff)
        out = []
        for v in vals:
            if isinstance(v, Raise):
                out.append(Raise(v.exc, tuple(sub(x) if isinstance(x, Val) else x for x in v.args), v.explicit, v.where,
                                 sub(v.val) if isinstance(v.val, Val) else v.val, v.msg))
            else:
                out.append(sub(v) if isinstance(v, Val) else v)
        return out

    def single_out(self, st, v, c):
        """a definite copy of the element the summary value v stands for (this iteration's one)"""
        memo = {}
        suf = "!%d" % c

        def sym(s):
            return Sym(s.name + suf, s.types, s.truth, False, s.group, s.ne, s.nochars, None, s) if s.multi else s

        def sub(v):
            if isinstance(v, Ref):
                return ref(v)
            if isinstance(v, (Sym, Cat, Term, Poly)):
                return map_scalar(v, sym)
            if isinstance(v, Tup) and all(k == "E" for k, _, _ in v.segs):
                return Tup(tuple((k, sub(x), n) for k, x, n in v.segs), v.shape)
            if isinstance(v, Ch) and isinstance(v.tok, str) and v.tok.startswith("*") and "!" not in v.tok:
                return Ch(v.tok + suf, tuple((lab, sub(x)) for lab, x in v.alts))
            return v

        def ref(v):
            o = st.get(v.a)
            if o is None or not getattr(o, "summ", False) or v.a in st.base:
                return v
            a2 = memo.get(v.a)
            if a2 is None:
                a2 = memo[v.a] = self.ctxs.mk(c, "mat", v.a)
                if isinstance(o, Inst):
                    n = Inst(o.cls, {k: sub(x) for k, x in o.attrs.items()})
                elif isinstance(o, ListO):
                    n = o.with_(segs=[(k, sub(x) if k == "E" else x, cn) for k, x, cn in o.segs], summ=False)
                elif isinstance(o, DictO):
                    n = o.with_(items=[(sub(k), sub(x), p) if p == "must" else (k, x, p) for k, x, p in o.items], summ=False)
                elif isinstance(o, SetO):
                    n = o.with_(items=[(sub(k), p) if p == "must" else (k, p) for k, p in o.items], summ=False)
                else:
                    return v
                st.set(a2, n)
            return Ref(a2)
        return sub(v)

    @staticmethod
    def tagof(v):
        if isinstance(v, Tup) and v.segs:
            xs = [x for _, x, _ in v.segs]
            if len(xs) == 2 and types_of_scalar(xs[0]) in (frozenset(["int"]),) :
                return Interp.tagof(xs[1])
            return Interp.tagof(xs[0])
        if isinstance(v, Ch):
            return ("ch", v.tok)
        return v

    def iterate(self, st, it, node, body, o):
        """Run body(st, elem)->Outs over the elements of `it`. -> (normal states, break states)"""
        norm, brks = [], []
        for s, v in ops.iter_segs(self, st, it, node):
            if isinstance(v, Raise):
                o.exc.append((s, v))
                continue
            segs, src, keys = v
            r, b = self.iterate1(s, segs, src, node, body, o, it)
            norm += r
            brks += b
        return norm, brks

    def iterate1(self, st, segs, src, node, body, o, it):
        ctx0 = st.ctx
        st.tmps = st.tmps + (it,) + ((tup(*[x for _, x, _ in segs]),) if segs else (NONE,))
        ntm = 2
        # each state carries: index of next seg
        work = [(st, 0)]
        finished, brks = [], []
        src0 = None
        if src is not None:
            src0 = st.get(src)
        tagcount = {}
        tags = []
        for k, x, c in segs:
            t = self.tagof(x)
            n = tagcount.get(t, 0) if k == "E" else 0
            if k == "E":
                tagcount[t] = n + 1
            tags.append((k if k != "M" else "E", t, n))
        pend = {0: [st]}
        skip = []
        i = 0
        while True:
            cur = pend.pop(i, [])
            if not cur:
                if not pend:
                    break
                i += 1
                continue
            cur = merge(cur, limit=self.limit)
            # group by: current view of the segments
            for s in cur:
                sg = segs
                if src is not None:
                    ob = s.get(src)
                    if ob is not src0 and isinstance(ob, ListO) and ob != src0:
                        sg = ob.segs
                if i >= len(sg):
                    finished.append(s)
                    continue
                kind, elem, cnt = sg[i]
                tag = tags[i] if sg is segs else ("E" if kind != "R" else "R", self.tagof(elem), ("mut", i))
                c = self.ctxs.sub(ctx0, self.nid(node), tag)
                before = s.get(src) if src is not None else None
                if kind in ("E", "M"):
                    if kind == "M":
                        pend.setdefault(i + 1, []).append(s.ifork("optional element"))
                    s.ctx = c
                    oo = body(s, elem)
                    for x, _ in oo.ret + oo.exc:
                        x.ctx = ctx0
                        x.tmps = x.tmps[:len(st.tmps) - ntm] if False else x.tmps
                    self.pop_tm(oo, ntm)
                    o.ret += oo.ret
                    o.exc += oo.exc
                    for x in oo.brk:
                        x.ctx = ctx0
                        brks.append(x)
                    nx = oo.norm + oo.cont
                    for x in nx:
                        x.ctx = ctx0
                        self.advance(x, src, before, i, pend)
                else:
                    outs, b = self.fixloop(s, elem, cnt, node, body, o, c, ctx0, ntm)
                    brks += b
                    for x in outs:
                        self.advance(x, src, before, i, pend)
            i += 1 if i not in pend else 0
        for s in finished:
            s.tmps = s.tmps[:-ntm]
        for s in brks:
            s.tmps = s.tmps[:-ntm]
        return merge(finished, limit=self.limit), merge(brks, limit=self.limit)

    def pop_tm(self, oo, n):
        for x, _ in oo.ret:
            x.tmps = x.tmps[:-n]
        for x, _ in oo.exc:
            x.tmps = x.tmps[:-n]

    def advance(self, s, src, before, i, pend):
        """next element index, honouring CPython's index-based list iteration when the list
        being iterated was changed by the body"""
        if src is None:
            pend.setdefault(i + 1, []).append(s)
            return
        now = s.get(src)
        if now is before or not isinstance(now, ListO) or not isinstance(before, ListO) or now.segs == before.segs:
            pend.setdefault(i + 1, []).append(s)
            return
        if all(k == "E" for k, _, _ in now.segs) and all(k == "E" for k, _, _ in before.segs):
            pend.setdefault(i + 1, []).append(s)
            return
        # removal of the current summary element or of a later one: the following may be skipped
        if len(now.segs) < len(before.segs):
            pend.setdefault(i + 1, []).append(s.ifork("removal during iteration"))
            pend.setdefault(i, []).append(s) if i < len(now.segs) and now.segs[i] != before.segs[i] else None
        else:
            pend.setdefault(i + 1, []).append(s)

    def fixloop(self, s, elem, cnt, node, body, o, c, ctx0, ntm):
        if cnt is not None:
            z = ops.eqv(self, s, cnt, C(0)) if not isinstance(cnt, str) else None
            if z is True:
                return [s], []
        heads = [s]
        todo = [s]
        brks = []
        rounds = 0
        deltas = {}
        allmust = None
        first_lists = {a: ob for a, ob in s.heap.items() if isinstance(ob, ListO)}
        self.fixpoints += 1
        retd, excd = [], []
        while todo:
            rounds += 1
            if rounds > 40:
                self.note("loop did not stabilise", node)
                break
            if rounds > 36 and DEBUG:
                print("ROUND", rounds, self.where(node), len(heads), [{a: (h.heap.get(a), lastheads[0].heap.get(a)) for a in h.heap if h.heap.get(a) != lastheads[0].heap.get(a)} for h in heads][:2])
            lastheads = list(heads)
            new = []
            for h in todo:
                x = h.fork()
                x.ctx = c
                oo = body(x, self.single_out(x, elem, c))
                self.pop_tm(oo, ntm)
                for y, v in oo.ret:
                    y.ctx = ctx0
                    v = self.end_iter(y, c, h, (v,), None, cnt)[0]
                    retd.append((y, self.leave_loop(y, c, (v,))[0]))
                for y, v in oo.exc:
                    y.ctx = ctx0
                    v = self.end_iter(y, c, h, (v,), None, cnt)[0]
                    excd.append((y, self.leave_loop(y, c, (v,))[0]))
                for y in oo.brk:
                    y.ctx = ctx0
                    self.end_iter(y, c, h, (), None, cnt)
                    self.leave_loop(y, c)
                    brks.append(y)
                for y in oo.norm + oo.cont:
                    y.ctx = ctx0
                    # lists that grew by exactly one element
                    for a, ob in h.heap.items():
                        if isinstance(ob, ListO):
                            ob2 = y.heap.get(a)
                            if ob2 is None:
                                continue
                            if len(ob2.segs) == len(ob.segs) + 1 and ob2.segs[:-1] == ob.segs and ob2.segs[-1][0] == "E":
                                deltas.setdefault(a, True)
                            else:
                                deltas[a] = False
                    mk = set()
                    self.end_iter(y, c, h, (), mk, cnt)
                    allmust = mk if allmust is None else allmust & mk
                    new.append(y)
            new = merge(new, widen=True, limit=self.limit)
            todo = []
            state.REACH.append({})
            for y in new:
                for i, h in enumerate(heads):
                    j = joinst(h, y, widen=True)
                    if j is not None:
                        if not same(h, j):
                            heads[i] = j
                            todo.append(j)
                        break
                else:
                    heads.append(y)
                    todo.append(y)
            state.REACH.pop()
            if len(heads) > self.limit:
                heads2 = merge(heads, widen=True, limit=self.limit)
                ids = {id(h) for h in heads}
                todo = [h for h in heads2 if id(h) not in ids] + [h for h in todo if any(h is k for k in heads2)]
                heads = heads2
        if retd:
            o.ret += self.merge_vals(retd)
        if excd:
            o.exc += self.merge_vals(excd)
        # the loop may run zero times: s itself is in heads
        res = []
        for h in heads:
            h = h.fork()
            for a, ok in deltas.items():
                if ok and cnt is not None and a in first_lists:
                    ob = h.heap.get(a)
                    f = first_lists[a]
                    if isinstance(ob, ListO) and len(ob.segs) == len(f.segs) + 1 and ob.segs[:-1] == f.segs and ob.segs[-1][0] == "R":
                        h.heap[a] = ob.with_(segs=f.segs + (("R", ob.segs[-1][1], cnt),))
            for a, k in allmust or ():
                ob = h.heap.get(a)
                if owned_by(k, cnt) and isinstance(ob, DictO):
                    h.heap[a] = ob.with_(items=[(x, v, "all" if x == k and p == "star" else p) for x, v, p in ob.items])
                elif owned_by(k, cnt) and isinstance(ob, SetO):
                    h.heap[a] = ob.with_(items=[(x, "all" if x == k and p == "star" else p) for x, p in ob.items])
            self.leave_loop(h, c)
            res.append(h)
        if len(res) > 1:
            res = merge(res, limit=self.limit)
        return res, merge(brks, limit=self.limit)

    # try / with ---------------------------------------------------------
    def x_Try(self, node, st, o):
        names = []
        for h in node.handlers:
            names += self.handler_names(st, h)
        otrys = st.trys
        st.trys = otrys + (tuple(names),)
        oo = self.exec_block(node.body, [st])
        for s in oo.norm + oo.brk + oo.cont:
            s.trys = otrys
        for s, _ in oo.ret + oo.exc:
            s.trys = otrys
        res = Outs()
        res.ret, res.brk, res.cont = oo.ret, oo.brk, oo.cont
        if oo.norm:
            if node.orelse:
                e = self.exec_block(node.orelse, merge(oo.norm, limit=self.limit))
                self.absorb(res, e)
                res.norm += e.norm
            else:
                res.norm += oo.norm
        for s, r in oo.exc:
            cur = s
            for h in node.handlers:
                m = self.matches(cur, h, r)
                if m is False:
                    continue
                hs = cur if m is True else cur.ifork("handler")
                if h.name:
                    ev = r.val if r.val is not None else self.alloc(hs, h, Inst(Bi(r.excname()), {"args": Top()}), "exc")
                    self.setname(hs, h.name, ev)
                f = hs.get(hs.fr)
                olde = f.vars.get("$exc")
                self.setname(hs, "$exc", Bi("$raise", None, r))
                hb = self.exec_block(h.body, [hs])
                for x in hb.norm + hb.brk + hb.cont + [y for y, _ in hb.ret + hb.exc]:
                    fx = x.get(x.fr)
                    if isinstance(fx, Frame) and "$exc" in fx.vars:
                        d = dict(fx.vars)
                        if olde is None:
                            del d["$exc"]
                        else:
                            d["$exc"] = olde
                        x.set(x.fr, Frame(d, fx.parent, fx.info))
                self.absorb(res, hb)
                res.norm += hb.norm
                if m is True:
                    cur = None
                    break
            if cur is not None:
                res.exc.append((cur, r))
        if node.finalbody:
            fin = Outs()
            fin.norm = self.fin(node, merge(res.norm, limit=self.limit), fin)
            for s, v in res.ret:
                s.tmps = s.tmps + (v,)
                for x in self.fin(node, [s], fin):
                    x.tmps = x.tmps[:-1]
                    fin.ret.append((x, v))
            for s, v in res.exc:
                fin.exc += [(x, v) for x in self.fin(node, [s], fin)]
            for s in res.brk:
                fin.brk += self.fin(node, [s], fin)
            for s in res.cont:
                fin.cont += self.fin(node, [s], fin)
            res = fin
        self.absorb(o, res)
        return res.norm

    def fin(self, node, states, acc):
        if not states:
            return []
        f = self.exec_block(node.finalbody, states)
        acc.ret += f.ret
        acc.exc += f.exc
        acc.brk += f.brk
        acc.cont += f.cont
        return f.norm

    def handler_vals(self, st, h):
        if h.type is None:
            return [Bi("BaseException")]
        out = []
        for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            for s, v in self.ev(e, st.fork()):
                if isinstance(v, Tup):
                    out += [x for _, x, _ in v.segs]
                elif isinstance(v, (Cls, Bi)):
                    out.append(v)
        return out

    def handler_names(self, st, h):
        return [v.name if isinstance(v, Bi) else v for v in self.handler_vals(st, h)]

    def matches(self, st, h, r):
        for v in self.handler_vals(st, h):
            tgt = v.name if isinstance(v, Bi) else v
            if lib.exc_sub(r.exc, tgt):
                return True
        if r.excname() == "Exception" and r.val is None:
            return None
        return False

    def x_With(self, node, st, o):
        cur = [(st, [])]
        for item in node.items:
            nx = []
            for s, ms in cur:
                for s1, m in self.split(self.evf(item.context_expr, s), o):
                    for s2, v in self.split(lib.enter(self, s1, m, node), o):
                        s2.tmps = s2.tmps + (m,)
                        ss = [s2]
                        if item.optional_vars is not None:
                            ss = self.assign_to(item.optional_vars, v, s2, o, node)
                        nx += [(x, ms + [m]) for x in ss]
            cur = nx
        res = []
        for s, ms in cur:
            supp = any(isinstance(m, Bi) and m.name == "suppress" for m in ms)
            otrys = s.trys
            if supp:
                s.trys = otrys + (("BaseException",),)
            oo = self.exec_block(node.body, [s])
            for x in oo.norm + oo.brk + oo.cont:
                x.trys = otrys
            for x, _ in oo.ret + oo.exc:
                x.trys = otrys
            k = len(ms)

            def exit_(x):
                x.tmps = x.tmps[:-k]
                return lib.exit_(self, x, ms, node)
            for x in oo.norm:
                res += exit_(x)
            for x in oo.brk:
                o.brk += exit_(x)
            for x in oo.cont:
                o.cont += exit_(x)
            for x, v in oo.ret:
                x.tmps = x.tmps[:-k]
                x.tmps = x.tmps + (v,)
                for y in lib.exit_(self, x, ms, node):
                    y.tmps = y.tmps[:-1]
                    o.ret.append((y, v))
            for x, v in oo.exc:
                for y in exit_(x):
                    if supp:
                        res.append(y)
                    else:
                        o.exc.append((y, v))
        return res

    def x_FunctionDef(self, node, st, o):
        res = []
        for s, v in self.split(self.make_fn(node, st, node.name), o):
            cur = [(s, v)]
            for d in reversed(node.decorator_list):
                nx = []
                for s1, fv in cur:
                    s1.tmps = s1.tmps + (fv,)
                    for s2, dv in self.split(self.evf(d, s1), o):
                        s2.tmps = s2.tmps[:-1]
                        for s3, r in self.split(lib.decorate(self, s2, dv, fv, d), o):
                            nx.append((s3, r))
                cur = nx
            for s1, fv in cur:
                self.setname(s1, node.name, fv)
                res.append(s1)
        return res

    x_AsyncFunctionDef = x_FunctionDef

    def qual(self, name):
        i = self.fnstack[-1] if self.fnstack else None
        base = i.qual if i is not None else ""
        return (base + "." + name) if base else name

    def make_fn(self, node, st, name):
        a = node.args
        dflt = a.defaults
        kwd = [(k.arg, d) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        res = []
        for s, vs in self.evs(dflt + [d for _, d in kwd], st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            f = s.get(s.fr)
            parent = s.fr
            cls = None
            if isinstance(f, Frame) and f.vars.get("$class") is not None:
                cls = f.vars["$class"]
                parent = f.parent
            info = self.make_info(node, self.qual(name), self.fnstack[-1].module if self.fnstack else "", cls)
            fv = Fn(info, parent, tuple(vs[: len(dflt)]), tuple((k, v) for (k, _), v in zip(kwd, vs[len(dflt):])))
            res.append((s, fv))
        return res

    def x_ClassDef(self, node, st, o):
        return lib.classdef(self, node, st, o)

    def x_Match(self, node, st, o):
        return lib.match_stmt(self, node, st, o)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        return getattr(self, "e_" + e.__class__.__name__)(e, st)

    def evf(self, e, st):
        """evaluate and force Un/Ch alternatives, narrowing a name or definite attribute"""
        outs = self.ev(e, st)
        if len(outs) == 1 and not isinstance(outs[0][1], (Ch, Un)):
            return outs
        res = []
        for s, v in outs:
            if isinstance(v, (Ch, Un)):
                for s2, x in ops.force(self, s, v):
                    if x is not v and not isinstance(x, Raise):
                        self.narrow(e, s2, v, x)
                    res.append((s2, x))
            else:
                res.append((s, v))
        return res

    def narrow(self, e, st, old, new):
        if isinstance(e, ast.Name):
            fr = st.fr
            f = st.get(fr)
            if isinstance(f, Frame) and f.vars.get(e.id) == old:
                st.set(fr, f.set(e.id, new))
        elif isinstance(e, ast.NamedExpr):
            self.narrow(e.target, st, old, new)
        elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            b = self.getname(st, e.value.id)
            if isinstance(b, Ref):
                ob = st.get(b.a)
                if isinstance(ob, Inst) and not ob.summ and ob.attrs.get(e.attr) == old:
                    st.set(b.a, ob.with_(attrs=dict(ob.attrs, **{e.attr: new})))

    def evs(self, exprs, st):
        """evaluate left to right -> [(st, [vals]) | (st, Raise)]"""
        cur = [(st, [])]
        for e in exprs:
            nx = []
            for s, vs in cur:
                if isinstance(vs, Raise):
                    nx.append((s, vs))
                    continue
                k = len(vs)
                if k:
                    s.tmps = s.tmps + tuple(vs)
                for s2, v in self.ev(e, s):
                    if k:
                        s2.tmps = s2.tmps[:-k]
                    nx.append((s2, v if isinstance(v, Raise) else vs + [v]))
            cur = nx
        return cur

    def cond(self, e, st):
        """truth of an expression -> [(st, bool|Raise)]"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur = [st]
            res = []
            for i, x in enumerate(e.values):
                nx = []
                for s in cur:
                    for s2, b in self.cond(x, s):
                        if isinstance(b, Raise):
                            res.append((s2, b))
                        elif b != isand:
                            res.append((s2, b))
                        else:
                            nx.append(s2)
                cur = nx
            res += [(s, isand) for s in cur]
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else (not b)) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.Compare):
            res = []
            for s, v in self.e_Compare(e, st):
                if isinstance(v, C):
                    res.append((s, bool(v.v)))
                elif isinstance(v, Raise):
                    res.append((s, v))
                else:
                    res.extend(ops.truth(self, s, v, e))
            return res
        res = []
        for s, v in self.evf(e, st):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                res.extend(ops.truth(self, s, v, e))
        return res

    def e_Constant(self, e, st):
        if e.value is Ellipsis:
            return [(st, Bi("Ellipsis"))]
        return [(st, C(e.value))]

    def e_Name(self, e, st):
        v = self.getname(st, e.id)
        if v is None:
            return self.implicit(st, "NameError", e, e.id)
        return [(st, v)]

    def e_NamedExpr(self, e, st):
        res = []
        for s, v in self.ev(e.value, st):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                # comprehension frames: bind in the function frame
                fr = s.fr
                f = s.get(fr)
                while f.vars.get("$comp") is not None:
                    fr = f.parent
                    f = s.get(fr)
                s.set(fr, f.set(e.target.id, v))
                res.append((s, v))
        return res

    def e_Attribute(self, e, st):
        res = []
        for s, v in self.evf(e.value, st):
            if isinstance(v, Raise):
                res.append((s, v))
            else:
                name = e.attr
                if name.startswith("__") and not name.endswith("__"):
                    name = self.mangle(name)
                res.extend(ops.getattr_(self, s, v, name, e))
        return res

    def mangle(self, name):
        for i in reversed(self.fnstack):
            if i.cls is not None:
                c = i.cls
                cn = c.name if isinstance(c, Cls) else c.v
                return "_" + cn.lstrip("_") + name
        return name

    def e_Subscript(self, e, st):
        res = []
        if isinstance(e.slice, ast.Slice):
            parts = [p for p in (e.slice.lower, e.slice.upper, e.slice.step)]
            ex = [e.value] + [p for p in parts if p is not None]
            for s, vs in self.evs(ex, st):
                if isinstance(vs, Raise):
                    res.append((s, vs))
                    continue
                it = iter(vs[1:])
                sl = [next(it) if p is not None else NONE for p in parts]
                for s2, b in ops.force(self, s, vs[0]):
                    res.extend(ops.getslice(self, s2, b, sl, e))
            return res
        for s, vs in self.evs([e.value, e.slice], st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            for s2, b in ops.force(self, s, vs[0]):
                for s3, k in ops.force(self, s2, vs[1]):
                    res.extend(ops.getitem(self, s3, b, k, e))
        return res

    def e_Slice(self, e, st):
        res = []
        parts = [e.lower, e.upper, e.step]
        for s, vs in self.evs([p for p in parts if p is not None], st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            it = iter(vs)
            res.append((s, Bi("slice", None, tuple(next(it) if p is not None else NONE for p in parts))))
        return res

    def e_Tuple(self, e, st):
        res = []
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seq_star(e, st, lambda s, segs: (s, Tup(segs)))
        for s, vs in self.evs(e.elts, st):
            res.append((s, vs if isinstance(vs, Raise) else tup(*vs)))
        return res

    def seq_star(self, e, st, mk):
        cur = [(st, [])]
        for x in e.elts:
            nx = []
            for s, segs in cur:
                if isinstance(segs, Raise):
                    nx.append((s, segs))
                    continue
                s.tmps = s.tmps + (tup(*[v for _, v, _ in segs]),)
                ex = x.value if isinstance(x, ast.Starred) else x
                for s2, v in (self.evf(ex, s) if isinstance(x, ast.Starred) else self.ev(ex, s)):
                    s2.tmps = s2.tmps[:-1]
                    if isinstance(v, Raise):
                        nx.append((s2, v))
                    elif isinstance(x, ast.Starred):
                        for s3, g in ops.iter_segs(self, s2, v, e):
                            nx.append((s3, g if isinstance(g, Raise) else segs + list(g[0])))
                    else:
                        nx.append((s2, segs + [("E", v, None)]))
            cur = nx
        return [(s, g) if isinstance(g, Raise) else mk(s, g) for s, g in cur]

    def e_List(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.seq_star(e, st, lambda s, segs: (s, self.alloc(s, e, ListO(segs))))
        res = []
        for s, vs in self.evs(e.elts, st):
            if isinstance(vs, Raise):
                res.append((s, vs))
            else:
                res.append((s, self.alloc(s, e, ListO([("E", v, None) for v in vs]))))
        return res

    def e_Set(self, e, st):
        def mk(s, segs):
            return ops.set_from_segs(self, s, segs, e, False)
        res = []
        for s, g in self.seq_star(e, st, lambda s, segs: (s, segs)):
            if isinstance(g, Raise):
                res.append((s, g))
            else:
                res.extend(mk(s, g))
        return res

    def e_Dict(self, e, st):
        cur = [(st, [])]
        for k, v in zip(e.keys, e.values):
            nx = []
            for s, acc in cur:
                if isinstance(acc, Raise):
                    nx.append((s, acc))
                    continue
                s.tmps = s.tmps + (tup(*[x for p in acc for x in p if isinstance(x, Val)]),)
                if k is None:
                    for s2, m in self.evf(v, s):
                        s2.tmps = s2.tmps[:-1]
                        if isinstance(m, Raise):
                            nx.append((s2, m))
                        else:
                            nx.append((s2, acc + [("**", m)]))
                    continue
                for s2, vs in self.evs([k, v], s):
                    s2.tmps = s2.tmps[:-1]
                    nx.append((s2, vs if isinstance(vs, Raise) else acc + [(vs[0], vs[1])]))
            cur = nx
        res = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                res.append((s, acc))
                continue
            r = self.alloc(s, e, DictO(()))
            ss = [s]
            for a in acc:
                n2 = []
                for x in ss:
                    if a[0] == "**":
                        n2 += [y for y, z in ops.dict_update(self, x, r, a[1], e)]
                    else:
                        for y, kk in ops.force(self, x, a[0]):
                            n2 += [z for z, _ in ops.setitem(self, y, r, kk, a[1], e)]
                ss = n2
            res += [(x, r) for x in ss]
        return res

    def e_JoinedStr(self, e, st):
        res = []
        parts = []
        for v in e.values:
            parts.append(v.value if isinstance(v, ast.FormattedValue) else v)
        for s, vs in self.evs(parts, st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            cur = [(s, [])]
            for node, v in zip(e.values, vs):
                nx = []
                for s2, acc in cur:
                    if isinstance(acc, Raise):
                        nx.append((s2, acc))
                        continue
                    spec = getattr(node, "format_spec", None)
                    conv = getattr(node, "conversion", -1)
                    for s3, t in ops.tostr(self, s2, v, node, conv == 114 or spec is not None):
                        nx.append((s3, t if isinstance(t, Raise) else acc + [t]))
                cur = nx
            res += [(s2, a if isinstance(a, Raise) else mkcat(a)) for s2, a in cur]
        return res

    def e_FormattedValue(self, e, st):
        return self.ev(e.value, st)

    def e_Lambda(self, e, st):
        return self.make_fn(e, st, "<lambda>")

    def e_IfExp(self, e, st):
        res = []
        for s, b in self.cond(e.test, st):
            if isinstance(b, Raise):
                res.append((s, b))
            else:
                res.extend(self.ev(e.body if b else e.orelse, s))
        return self.merge_vals(res)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        res = []
        cur = [st]
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nx = []
            for s in cur:
                if last:
                    res.extend(self.ev(x, s))
                    continue
                for s2, v in self.evf(x, s):
                    if isinstance(v, Raise):
                        res.append((s2, v))
                        continue
                    s2.tmps = s2.tmps + (v,)
                    for s3, b in ops.truth(self, s2, v, x):
                        s3.tmps = s3.tmps[:-1]
                        if isinstance(b, Raise):
                            res.append((s3, b))
                        elif b == isand:
                            nx.append(s3)
                        else:
                            res.append((s3, v))
            cur = nx
        return self.merge_vals(res)

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            return [(s, b if isinstance(b, Raise) else B(not b)) for s, b in self.cond(e.operand, st)]
        res = []
        for s, v in self.evf(e.operand, st):
            res.append((s, v if isinstance(v, Raise) else ops.unary(self, s, e.op, v)))
        return res

    def e_BinOp(self, e, st):
        res = []
        for s, vs in self.evs([e.left, e.right], st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            for s2, a in ops.force(self, s, vs[0]):
                for s3, b in ops.force(self, s2, vs[1]):
                    res.extend(ops.binop(self, s3, e.op, a, b, e))
        return res

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            return self.cmp2(e.left, e.ops[0], e.comparators[0], st, e)
        # chained: evaluate operands once, left to right (all evaluated; pure operands)
        res = []
        for s, vs in self.evs([e.left] + e.comparators, st):
            if isinstance(vs, Raise):
                res.append((s, vs))
                continue
            cur = [s]
            out = []
            for i, op in enumerate(e.ops):
                nx = []
                for s2 in cur:
                    for s3, a in ops.force(self, s2, vs[i]):
                        for s4, b in ops.force(self, s3, vs[i + 1]):
                            for s5, r in ops.compare(self, s4, op, a, b, e):
                                if isinstance(r, Raise) or r is False:
                                    out.append((s5, r if isinstance(r, Raise) else FALSE))
                                else:
                                    nx.append(s5)
                cur = nx
            res += out + [(x, TRUE) for x in cur]
        return res

    def cmp2(self, l, op, r, st, e):
        res = []
        for s, a in self.evf(l, st):
            if isinstance(a, Raise):
                res.append((s, a))
                continue
            s.tmps = s.tmps + (a,)
            for s2, b in self.evf(r, s):
                s2.tmps = s2.tmps[:-1]
                if isinstance(b, Raise):
                    res.append((s2, b))
                    continue
                for s3, v in ops.compare(self, s2, op, a, b, e):
                    res.append((s3, v if isinstance(v, Raise) else B(v)))
        return res

    def e_Call(self, e, st):
        # super() needs the enclosing function
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.getname(st, "super") == Bi("super"):
            return self.ev_super(e, st)
        res = []
        simple = not any(isinstance(a, ast.Starred) for a in e.args) and all(k.arg for k in e.keywords)
        for s, f in self.evf(e.func, st):
            if isinstance(f, Raise):
                res.append((s, f))
                continue
            s.tmps = s.tmps + (f,)
            if simple:
                for s2, vs in self.evs(list(e.args) + [k.value for k in e.keywords], s):
                    s2.tmps = s2.tmps[:-1]
                    if isinstance(vs, Raise):
                        res.append((s2, vs))
                        continue
                    n = len(e.args)
                    args = [("E", v) for v in vs[:n]]
                    kw = [(k.arg, v) for k, v in zip(e.keywords, vs[n:])]
                    res.extend(self.call(s2, f, args, kw, e))
                continue
            for s2, vs in self.evs([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], s):
                s2.tmps = s2.tmps[:-1]
                if isinstance(vs, Raise):
                    res.append((s2, vs))
                    continue
                n = len(e.args)
                cur = [(s2, [])]
                for a, v in zip(e.args, vs[:n]):
                    nx = []
                    for s3, acc in cur:
                        if isinstance(a, ast.Starred):
                            for s4, g in ops.iter_segs(self, s3, v, e):
                                if isinstance(g, Raise):
                                    nx.append((s4, g))
                                else:
                                    if any(k != "E" for k, _, _ in g[0]):
                                        self.note("star-argument of unknown length", e)
                                    nx.append((s4, acc + [("E" if k == "E" else "*", x) for k, x, _ in g[0]]))
                        else:
                            nx.append((s3, acc + [("E", v)]))
                    cur = nx
                for s3, args in cur:
                    if isinstance(args, Raise):
                        res.append((s3, args))
                        continue
                    kw = []
                    bad = None
                    for k, v in zip(e.keywords, vs[n:]):
                        if k.arg:
                            kw.append((k.arg, v))
                        elif isinstance(v, Ref) and isinstance(s3.get(v.a), DictO):
                            for kk, vv, p in s3.get(v.a).items:
                                if isinstance(kk, C) and p == "must":
                                    kw.append((kk.v, vv))
                                else:
                                    self.note("** of unknown keys", e)
                    res.extend(self.call(s3, f, args, kw, e))
        return res

    def ev_super(self, e, st):
        if e.args:
            res = []
            for s, vs in self.evs(e.args, st):
                res.append((s, vs if isinstance(vs, Raise) else SuperV(vs[0], vs[1])))
            return res
        f = st.get(st.fr)
        fr = st.fr
        while f.vars.get("$comp") is not None:
            fr = f.parent
            f = st.get(fr)
        info = f.info
        cls = info.cls
        first = (info.node.args.posonlyargs + info.node.args.args)[0].arg
        c = cls if isinstance(cls, Cls) else self.classes.get(cls.v if isinstance(cls, C) else cls)
        return [(st, SuperV(c, f.vars[first]))]

    # comprehensions
    def comp(self, e, st, start, step):
        """start(st)->acc Ref ; step(st, acc)-> [(st, None|Raise)]"""
        acc = start(st)
        ofr, ostack = st.fr, st.stack
        fr = self.ctxs.mk(st.ctx, self.nid(e), "compframe")
        st.set(fr, Frame({"$comp": TRUE}, ofr, self.fnstack[-1] if False else None))
        st.fr = fr
        st.stack = ostack + (fr,)
        st.tmps = st.tmps + (acc,)
        o = Outs()
        shared = any(isinstance(n, (ast.Lambda, ast.NamedExpr)) for n in ast.walk(e))
        bound = [{n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)} for g in e.generators]

        def gen(i, s):
            if i == len(e.generators):
                r = Outs()
                for s2, v in step(s, acc):
                    if isinstance(v, Raise):
                        r.exc.append((s2, v))
                    else:
                        r.norm.append(s2)
                return r
            g = e.generators[i]
            r = Outs()
            if i == 0:
                s.fr = ofr  # first iterable is evaluated in the enclosing scope
                its = self.evf(g.iter, s)
                for x, _ in its:
                    x.fr = fr
            else:
                its = self.evf(g.iter, s)
            for s1, it in its:
                if isinstance(it, Raise):
                    r.exc.append((s1, it))
                    continue

                def body(s2, elem):
                    oo = Outs()
                    cur = self.assign_to(g.target, elem, s2, oo, g)
                    for c in g.ifs:
                        nx = []
                        for s3 in cur:
                            for s4, b in self.cond(c, s3):
                                if isinstance(b, Raise):
                                    oo.exc.append((s4, b))
                                elif b:
                                    nx.append(s4)
                                else:
                                    oo.norm.append(s4)
                        cur = nx
                    for s3 in cur:
                        q = gen(i + 1, s3)
                        oo.norm += q.norm
                        oo.exc += q.exc
                    if not shared:
                        names = bound[i]
                        for s3 in oo.norm:
                            f = s3.heap.get(fr)
                            if f is not None and any(n in f.vars for n in names):
                                s3.heap[fr] = Frame({k: v for k, v in f.vars.items() if k not in names}, f.parent, f.info)
                    if len(oo.norm) > 1:
                        oo.norm = merge(oo.norm, limit=self.limit)
                    return oo
                n, b = self.iterate(s1, it, g, body, r)
                r.norm += n
            return r
        q = gen(0, st)
        res = []
        for s in q.norm:
            s.fr, s.stack, s.tmps = ofr, ostack, s.tmps[:-1]
            s.heap.pop(fr, None)
            res.append((s, acc))
        for s, v in q.exc:
            s.fr, s.stack, s.tmps = ofr, ostack, s.tmps[:-1]
            res.append((s, v))
        return self.merge_vals(res)

    def e_ListComp(self, e, st, kind="list"):
        def start(s):
            return self.alloc(s, e, ListO((), kind))

        def step(s, acc):
            res = []
            for s2, v in self.ev(e.elt, s):
                if isinstance(v, Raise):
                    res.append((s2, v))
                else:
                    res.extend(ops.list_append(self, s2, acc, v, e))
            return res
        return self.comp(e, st, start, step)

    def e_GeneratorExp(self, e, st):
        return self.e_ListComp(e, st, "iter")

    def e_SetComp(self, e, st):
        def start(s):
            return self.alloc(s, e, SetO(()))

        def step(s, acc):
            res = []
            for s2, v in self.evf(e.elt, s):
                if isinstance(v, Raise):
                    res.append((s2, v))
                else:
                    res.extend(ops.set_add(self, s2, acc, v, e))
            return res
        return self.comp(e, st, start, step)

    def e_DictComp(self, e, st):
        def start(s):
            return self.alloc(s, e, DictO(()))

        def step(s, acc):
            res = []
            for s2, vs in self.evs([e.key, e.value], s):
                if isinstance(vs, Raise):
                    res.append((s2, vs))
                    continue
                for s3, k in ops.force(self, s2, vs[0]):
                    res.extend(ops.setitem(self, s3, acc, k, vs[1], e))
            return res
        return self.comp(e, st, start, step)

    def e_Yield(self, e, st):
        res = []
        outs = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in outs:
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            acc = self.getname(s, "$yield")
            for s2, r in ops.list_append(self, s, acc, v, e):
                res.append((s2, r if isinstance(r, Raise) else NONE))
        return res

    def e_YieldFrom(self, e, st):
        res = []
        for s, v in self.evf(e.value, st):
            if isinstance(v, Raise):
                res.append((s, v))
                continue
            acc = self.getname(s, "$yield")
            for s2, r in ops.list_extend(self, s, acc, v, e):
                res.append((s2, r if isinstance(r, Raise) else NONE))
        return res

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)
