"""Models of the Python builtins and of the standard library pieces the package may use.

Anything not modelled evaluates to Top and is recorded in Interp.notes.
"""
import ast
import re as _re
import string as _string

from domain import *  # noqa
from state import *  # noqa
from state import Hard

STR = frozenset(["str"])
INT = frozenset(["int"])
BOOL = frozenset(["bool"])
NUM = frozenset(["int", "float"])
TERM_ATTR = frozenset(["Path"])
DIGITS_NO = "".join(chr(i) for i in range(32, 127) if not chr(i).isdigit())

# ------------------------------------------------------------------ names
EXC = {
    "BaseException": None, "Exception": "BaseException", "ArithmeticError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "OverflowError": "ArithmeticError", "AssertionError": "Exception", "AttributeError": "Exception", "LookupError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "NameError": "Exception", "UnboundLocalError": "NameError",
    "OSError": "Exception", "IOError": "OSError", "FileNotFoundError": "OSError", "FileExistsError": "OSError",
    "PermissionError": "OSError", "NotADirectoryError": "OSError", "IsADirectoryError": "OSError", "EnvironmentError": "OSError",
    "RuntimeError": "Exception", "RecursionError": "RuntimeError", "NotImplementedError": "RuntimeError",
    "StopIteration": "Exception", "TypeError": "Exception", "ValueError": "Exception", "UnicodeError": "ValueError",
    "UnicodeDecodeError": "UnicodeError", "UnicodeEncodeError": "UnicodeError", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "KeyboardInterrupt": "BaseException", "SystemExit": "BaseException",
    "GeneratorExit": "BaseException", "Warning": "Exception", "UserWarning": "Warning", "DeprecationWarning": "Warning",
    "JSONDecodeError": "ValueError",
}
FUNCS = set("""len isinstance issubclass hasattr getattr setattr delattr type vars id hash callable int float str bool list dict
set frozenset tuple object print range enumerate zip map filter sorted reversed any all sum min max abs round next iter repr
format open super property staticmethod classmethod bytes bytearray complex divmod pow ord chr input dir globals locals eval exec
memoryview slice hex oct bin ascii __import__ NotImplemented Ellipsis""".split())


def builtin(name):
    if name in FUNCS or name in EXC:
        return Bi(name)
    if name == "__debug__":
        return TRUE
    if name == "__file__":
        return C("x.py")
    return None


def exc_sub(e, t):
    """is exception class e a subclass of t (str or Cls)?"""
    if isinstance(e, Cls):
        import ops
        for k in ops.mro(None, e):
            if k == t:
                return True
            if isinstance(k, Bi) and not isinstance(t, Cls) and exc_sub(k.name, t if isinstance(t, str) else t.name):
                return True
        return False
    if isinstance(t, Cls):
        return False
    e = e.rsplit(".", 1)[-1]
    t = t.rsplit(".", 1)[-1]
    if t == "IOError" or t == "EnvironmentError":
        t = "OSError"
    while e is not None:
        if e == t:
            return True
        e = EXC.get(e)
    return False


def kind_name(o):
    if isinstance(o, ListO):
        return o.kind
    if isinstance(o, DictO):
        return "dict"
    if isinstance(o, SetO):
        return "frozenset" if o.frozen else "set"
    return "?"


METHODS = {
    "list": set(dir([])), "dict": set(dir({})) | {"move_to_end", "most_common", "elements", "subtract", "total"}, "set": set(dir(set())),
    "frozenset": set(dir(frozenset())), "iter": {"__next__", "__iter__", "send", "close"},
    "deque": set(dir([])) | {"appendleft", "popleft", "extendleft", "rotate"},
}


def has_method(kind, name):
    return name in METHODS.get(kind, ())


def bi_class_attr(bi, name):
    n = bi.name
    leaf = n.rsplit(".", 1)[-1]
    if leaf in EXC:
        if name == "__init__":
            return Bi("exc.__init__")
        if name == "__str__":
            return Bi("exc.__str__")
    if name in ("__new__", "__init__", "__setattr__", "__getattribute__", "__delattr__", "__eq__", "__ne__", "__hash__", "__repr__", "__str__",
                "__init_subclass__", "__class__", "__format__", "__sizeof__", "__dir__", "__reduce__"):
        return Bi("object." + name)
    if name == "__doc__":
        return NONE
    return None


MODCONST = {"os.sep": C("/"), "os.linesep": C("\n"), "os.path.sep": C("/"), "sys.maxsize": C(2 ** 63 - 1), "math.pi": C(3.141592653589793),
            "math.inf": C(float("inf")), "re.IGNORECASE": C(2), "re.I": C(2), "re.ASCII": C(256), "re.UNICODE": C(32), "re.VERBOSE": C(64),
            "re.MULTILINE": C(8), "re.DOTALL": C(16), "os.O_RDONLY": C(0), "os.curdir": C("."), "os.pardir": C(".."),
            "string.digits": C("0123456789"), "string.ascii_letters": C(_string.ascii_letters), "typing.TYPE_CHECKING": FALSE}


def bi_attr(I, st, bi, name):
    n = bi.name
    if n == "re.Pattern":
        if name == "pattern":
            return bi.extra
        return Bi("re.%s$pat" % name, bi.extra)
    if n == "slice" and bi.extra:
        return dict(zip(("start", "stop", "step"), bi.extra)).get(name)
    if n.startswith("view."):
        if name in ("isdisjoint",):
            return Bi("frozenset." + name, bi)
        return Bi("frozenset." + name, bi)
    if name in ("__name__", "__qualname__"):
        return C(n.rsplit(".", 1)[-1])
    if name == "__module__":
        return C("builtins")
    if name == "__doc__":
        return C("")
    full = n + "." + name
    if full in MODCONST:
        return MODCONST[full]
    if name in EXC:
        return Bi(name)
    if n == "typing" or n.startswith("typing."):
        return Bi("typing." + name)
    if n.rsplit(".", 1)[-1] in EXC and name not in ("__init__", "__new__"):
        return Bi("exc." + name)
    if n == "object":
        return Bi("object." + name)
    return Bi(full)


def biobj_attr(I, st, v, o, name, node):
    """attributes of instances of builtin classes (files, matches, exceptions)"""
    n = o.cls.name
    if n == "re.Match":
        return [(st, Bi("match." + name, v))]
    if n == "file":
        if name == "name":
            return [(st, o.attrs.get("path", Top(STR)))]
        return [(st, Bi("file." + name, v))]
    if n == "lock":
        return [(st, Bi("noop"))]
    if n.rsplit(".", 1)[-1] in EXC:
        if name == "args":
            return [(st, o.attrs.get("args", Top()))]
        if name in ("message", "strerror", "filename", "errno", "__cause__", "__traceback__", "__context__"):
            return [(st, Top())]
        return [(st, Bi("exc." + name, v))]
    return None


def term_attr(I, st, v, name, node):
    """pathlib.Path modelled as Term('Path', (str,))"""
    p = v.args[0]
    if name == "parent":
        return [(st, Term("Path", (dirname(I, st, p, True),), frozenset(["path"])))]
    if name in ("name",):
        return [(st, basename(I, st, p))]
    if name in ("stem", "suffix"):
        return [(st, Term(name, (p,), STR))]
    return [(st, Bi("path." + name, v))]


def is_unord(st, v):
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, ListO):
            return o.unord
        if isinstance(o, DictO):
            return o.unord
        if isinstance(o, SetO):
            return len(o.items) > 1 or any(p in STARS for _, p in o.items)
    if isinstance(v, Bi) and v.name.startswith("view.") and isinstance(v.self_, Val):
        return is_unord(st, v.self_)
    return False


# ------------------------------------------------------------------ helpers
def forced(I, st, vals):
    import ops
    cur = [(st, [])]
    for v in vals:
        nx = []
        for s, acc in cur:
            for s2, x in ops.force(I, s, v):
                nx.append((s2, acc + [x]))
        cur = nx
    return cur


def allc(vals):
    return all(isinstance(v, C) for v in vals)


def topnote(I, st, name, node, t=None):
    I.note("unmodelled call " + name, node)
    return [(st, Top(t, name))]


def nondet(I, st, name, node, t=None):
    I.nondet.add((name, I.where(node)))
    return [(st, Top(t, "nondet"))]


def loop(I, st, it, node, body):
    """run body(st, elem)->[(st, None|Raise)] over an iterable. -> ([st], [(st, Raise)])"""
    from interp import Outs
    o = Outs()

    def b(s, elem):
        oo = Outs()
        for s2, r in body(s, elem):
            if isinstance(r, Raise):
                oo.exc.append((s2, r))
            else:
                oo.norm.append(s2)
        return oo
    norm, _ = I.iterate(st, it, node, b, o)
    return norm, o.exc


def newlist(I, st, node, segs=(), kind="list", extra=None, unord=False):
    return I.alloc(st, node, ListO(segs, kind, None, False, 0, unord), extra)


def collect(I, st, it, node, fn, kind="iter", extra="col"):
    """list of fn(st, elem) -> [(st, val|None skip|Raise)]"""
    import ops
    acc = newlist(I, st, node, (), kind, extra)
    st.tmps = st.tmps + (acc,)

    def body(s, e):
        res = []
        for s2, v in fn(s, e):
            if isinstance(v, Raise):
                res.append((s2, v))
            elif v is None:
                res.append((s2, None))
            else:
                res += [(s3, None) for s3, _ in ops.list_append(I, s2, acc, v, node)]
        return res
    norm, exc = loop(I, st, it, node, body)
    res = []
    un = is_unord(st, it)
    for s in norm:
        s.tmps = s.tmps[:-1]
        if un:
            s.set(acc.a, s.get(acc.a).with_(unord=True))
        res.append((s, acc))
    for s, r in exc:
        s.tmps = s.tmps[:-1]
        res.append((s, r))
    return res


def seqs(I, st, v, node):
    """-> [(st, segs|Raise)]"""
    import ops
    return [(s, g if isinstance(g, Raise) else g[0]) for s, g in ops.iter_segs(I, st, v, node)]


# ------------------------------------------------------------------ dispatch
def call(I, st, f, args, kw, node):
    n = f.name
    if n.startswith("typing.") or n.startswith("abc.") and n != "abc.ABC":
        return call_typing(I, st, n, args, kw, node)
    h = CALLS.get(n)
    if h is not None:
        return h(I, st, f, args, kw, node)
    if n.endswith("$pat"):
        return call(I, st, Bi(n[:-4]), [f.self_] + args, kw, node)
    if "." in n:
        p, m = n.split(".", 1)
        if p in ("str", "list", "dict", "set", "frozenset", "iter", "tuple", "float", "int", "bool", "bytes", "deque", "file", "match", "exc", "object",
                 "path", "namedtuple", "NoneType"):
            if f.self_ is not None:
                args = [f.self_] + args
            if not args:
                return I.implicit(st, "TypeError", node, "missing self for " + n)
            return method(I, st, p, m, args, kw, node)
        leaf = n.rsplit(".", 1)[-1]
        if leaf in EXC:
            return mkexc(I, st, n, args, node)
    if n in EXC:
        return mkexc(I, st, n, args, node)
    if n == "partial":
        pf, pargs, pkw = f.extra[0], f.extra[1], f.extra[2]
        k2 = dict((k.v, v) for _, k, _ in () for v in ()) if False else {}
        for kv in pkw.segs:
            k2[kv[1].segs[0][1].v] = kv[1].segs[1][1]
        k2.update(kw)
        return I.call(st, pf, [("E", v) for _, v, _ in pargs.segs] + [("E", a) for a in args], list(k2.items()), node)
    if n == "itemgetter":
        import ops
        keys = f.extra
        if len(keys) == 1:
            res = []
            for s, o in ops.force(I, st, args[0]):
                res += ops.getitem(I, s, o, keys[0], node)
            return res
        cur = [(st, [])]
        for k in keys:
            nx = []
            for s, acc in cur:
                for s1, o in ops.force(I, s, args[0]):
                    for s2, v in ops.getitem(I, s1, o, k, node):
                        if isinstance(v, Raise):
                            return [(s2, v)]
                        nx.append((s2, acc + [v]))
            cur = nx
        return [(s, tup(*a)) for s, a in cur]
    if n == "attrgetter":
        import ops
        cur = [(st, args[0])]
        out = []
        if len(f.extra) == 1:
            for part in f.extra[0].v.split("."):
                nx = []
                for s, v in cur:
                    if isinstance(v, Raise):
                        nx.append((s, v))
                    else:
                        nx += ops.getattr_(I, s, v, part, node)
                cur = nx
            return cur
    if n == "methodcaller":
        import ops
        res = []
        for s, m in ops.getattr_(I, st, args[0], f.extra[0].v, node):
            res += [(s, m)] if isinstance(m, Raise) else I.call(s, m, [("E", x) for x in f.extra[1:]], [], node)
        return res
    if n.startswith(NONDET):
        return nondet(I, st, n, node)
    if n.startswith(EFFECTS):
        st.note_eff("fs:" + n, tuple(args), I.where(node))
        return [(st, Top(None, n))]
    return topnote(I, st, n, node)


NONDET = ("random.", "time.", "datetime.", "uuid.", "secrets.", "os.urandom", "os.getpid", "os.getcwd", "os.listdir", "os.scandir", "os.walk",
          "glob.", "platform.", "socket.", "sys.argv", "os.environ", "os.getenv", "tempfile.", "threading.")
EFFECTS = ("shutil.", "os.remove", "os.rename", "os.replace", "os.unlink", "os.rmdir", "os.removedirs", "os.system", "subprocess.", "os.chmod",
           "os.chdir", "os.link", "os.symlink", "os.truncate", "os.write", "os.open", "os.utime", "pickle.dump", "sys.stdout", "sys.stderr", "urllib.", "http.")


def call_typing(I, st, n, args, kw, node):
    leaf = n.split(".", 1)[1]
    if leaf == "cast":
        return [(st, args[1])]
    if leaf == "NamedTuple":
        names = [x[1].segs[0][1].v for x in (args[1].segs if isinstance(args[1], Tup) else st.get(args[1].a).segs)]
        return [(st, mkrecord(I, st, args[0].v, names, (), node))]
    if leaf in ("TypeVar", "NewType", "ParamSpec", "Generic", "Protocol"):
        return [(st, Bi("typing.tv"))]
    if leaf in ("abstractmethod", "overload", "final", "no_type_check", "runtime_checkable", "abstractproperty", "abstractclassmethod", "abstractstaticmethod") and args:
        return [(st, args[0])]
    return [(st, Bi("typing.x"))]


def mkexc(I, st, n, args, node):
    r = I.alloc(st, node if node is not None else "ext", Inst(Bi(n.rsplit(".", 1)[-1]), {"args": tup(*args)}), "exc")
    return [(st, r)]


CALLS = {}


def reg(*names):
    def d(fn):
        for n in names:
            CALLS[n] = fn
        return fn
    return d


FOLDTYPES = dict({"math." + n: frozenset(["float"]) for n in ("sqrt", "fabs", "copysign", "hypot")}, **{
    "abs": NUM, "round": NUM, "math.floor": INT, "math.ceil": INT, "math.trunc": INT, "math.isclose": BOOL, "math.isnan": BOOL,
    "ord": INT, "chr": STR, "hex": STR, "bin": STR, "oct": STR})
ROUNDING = ("abs", "round", "math.floor", "math.ceil", "math.trunc", "math.fabs", "int")


def rounded(s, t, v):
    """a function that leaves some numbers as they are: the number itself, or a different one"""
    import ops
    tv = ops.types_of(s, v)
    if tv is None or not tv <= NUM or ops.is_multi(v):
        return [(s, t if tv is not None and not tv & NUM else Term(t.op + "?", t.args, t.types))]
    if tv <= INT and t.op not in ("abs", "math.fabs") and (len(t.args) < 2 or isinstance(t.args[1], C) and isinstance(t.args[1].v, int) and t.args[1].v >= 0):
        return [(s, v)]
    k = ops.eqkey(t, v)
    if k in s.facts:
        return [(s, v if s.facts[k] else t)]
    return [(s2, v if b else t) for s2, b in ops.fork_bool(s, k)]


def fold(*names):
    """host-folded pure functions on constants"""
    def d(fn):
        def h(I, st, f, args, kw, node):
            res = []
            for s, a in forced(I, st, args):
                if allc(a) and all(isinstance(v, C) for v in kw.values()):
                    try:
                        res.append((s, C(fn(*[x.v for x in a], **{k: v.v for k, v in kw.items()}))))
                    except Exception as e:
                        res += I.implicit(s, type(e).__name__, node, str(e))
                elif all(isinstance(x, (C, Sym, Cat, Term, Poly)) for x in a):
                    t = Term(f.name, list(a) + [kw[k] for k in sorted(kw)], FOLDTYPES.get(f.name))
                    res += rounded(s, t, a[0]) if f.name in ROUNDING else [(s, t)]
                else:
                    res.append((s, Top(FOLDTYPES.get(f.name), f.name)))
            return res
        for n in names:
            CALLS[n] = h
        return fn
    return d


fold("abs")(abs)
fold("round")(round)
fold("ord")(ord)
fold("chr")(chr)
fold("hex")(hex)
fold("bin")(bin)
fold("oct")(oct)
fold("divmod")(divmod)
fold("pow")(pow)
import math as _math
for _n in ("floor", "ceil", "sqrt", "isclose", "fabs", "isnan", "trunc", "copysign", "hypot", "prod"):
    fold("math." + _n)(getattr(_math, _n))


@reg("noop", "print", "warnings.warn", "gc.collect", "sys.setrecursionlimit", "atexit.register")
def _noop(I, st, f, args, kw, node):
    return [(st, NONE)]


@reg("logging.getLogger")
def _logger(I, st, f, args, kw, node):
    return [(st, Bi("logging.L"))]


for _n in ("debug", "info", "warning", "error", "exception", "critical", "log", "basicConfig"):
    CALLS["logging.L." + _n] = _noop
    CALLS["logging." + _n] = _noop


@reg("len")
def _len(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        res += len1(I, s, v, node)
    return res


def len1(I, st, v, node):
    import ops
    if isinstance(v, C):
        try:
            return [(st, C(len(v.v)))]
        except TypeError as e:
            return I.implicit(st, "TypeError", node, str(e))
    if isinstance(v, Tup):
        l = ops.seg_len(st, v.segs)
        return [(st, l if l is not None else Top(INT))]
    if isinstance(v, Bi) and v.name.startswith("view."):
        return len1(I, st, v.self_, node)
    if isinstance(v, InstDict):
        return [(st, C(len(st.get(v.a).attrs)))]
    if isinstance(v, Cls) and v.kind == "enum":
        return [(st, C(len(enum_members(I, st, v))))]
    if isinstance(v, Ref):
        o = st.get(v.a)
        if isinstance(o, ListO):
            if o.kind == "iter":
                return I.implicit(st, "TypeError", node, "iterator has no len()")
            l = ops.seg_len(st, o.segs) if not o.summ or all(k == "E" for k, _, _ in o.segs) else None
            if l is not None:
                return [(st, l)]
            return [(st, Len(v.a, o, sum(1 for k, _, _ in o.segs if k == "E")))]
        if isinstance(o, DictO):
            res = []
            for s in ops.settle(I, st, v.a):
                o = s.get(v.a)
                if all(p == "must" for _, _, p in o.items):
                    res.append((s, C(len(o.items))))
                else:
                    res.append((s, Len(v.a, o, sum(1 for _, _, p in o.items if p == "must"))))
            return res
        if isinstance(o, SetO):
            if all(p == "must" for _, p in o.items) and (len(o.items) < 2 or not any(is_multi(k) for k, _ in o.items)):
                if all(ops.eqv(I, st, a[0], b[0]) is False for i, a in enumerate(o.items) for b in o.items[:i]):
                    return [(st, C(len(o.items)))]
            return [(st, Len(v.a, o, 1 if any(p == "must" for _, p in o.items) else 0))]
        if isinstance(o, Inst):
            if isinstance(o.cls, Cls) and o.cls.kind == "namedtuple":
                return [(st, C(len(o.cls.fields)))]
            m = ops.class_attr(I, st, o.cls, "__len__")
            if m is not None and not isinstance(m, Bi):
                return I.call(st, m, [("E", v)], [], node)
            return I.implicit(st, "TypeError", node, "no len()")
    if isinstance(v, (Sym, Cat, Term)):
        t = ops.types_of(st, v)
        if t is not None and t <= STR:
            return [(st, ops.strlen(I, st, v))]
        if t is not None and not (t & frozenset(["str", "list", "dict"])):
            return I.implicit(st, "TypeError", node, "no len()")
    return [(st, Top(INT))]


@reg("isinstance")
def _isinstance(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        cls = args[1]
        r = ops.isinst(I, s, v, cls, node)
        if r is not None:
            res.append((s, B(r)))
        else:
            k = ("isinst", v, repr(cls))
            if k in s.facts:
                res.append((s, B(s.facts[k])))
            else:
                res += [(x, B(b)) for x, b in ops.fork_bool(s, k, is_multi(v))]
    return res


@reg("issubclass")
def _issubclass(I, st, f, args, kw, node):
    import ops
    res = []
    for s, a in forced(I, st, args):
        c, t = a
        if not isinstance(c, (Cls, Bi)):
            res += I.implicit(s, "TypeError", node, "issubclass() arg 1 must be a class")
            continue
        ts = [x for _, x, _ in t.segs] if isinstance(t, Tup) else [t]
        res.append((s, B(any(ops.is_sub(I, s, c, x) for x in ts))))
    return res


MISSING = Bi("$missing")


@reg("hasattr")
def _hasattr(I, st, f, args, kw, node):
    import ops
    res = []
    for s, a in forced(I, st, args):
        ob, name = a
        if not isinstance(name, C):
            nm = by_name(I, s, ob, name, node)
            if nm is None:
                res += [(x, B(b)) for x, b in ops.fork_bool(s)]
            else:
                for s2, n in nm:
                    res += _hasattr(I, s2, f, [ob, n], kw, node) if isinstance(n, C) else [(s2, FALSE)]
            continue
        for s2, v in ops.getattr_(I, s, ob, name.v, node, MISSING):
            if isinstance(v, Raise):
                res.append((s2, FALSE if exc_sub(v.exc, "AttributeError") else v))
            elif isinstance(v, Top) and v.why == "attr of unknown":
                res += [(x, B(b)) for x, b in ops.fork_bool(s2)]
            else:
                res.append((s2, B(v != MISSING)))
    return res


def by_name(I, st, ob, name, node):
    """the attributes of an object that an unknown name may stand for -> [(st, C(attribute) | name)] or None"""
    import ops
    if not (isinstance(ob, Ref) and isinstance(st.get(ob.a), Inst)) or not isinstance(name, (Sym, Cat)) or is_multi(name):
        return None
    o = st.get(ob.a)
    if isinstance(o.cls, Bi) or any(isinstance(c, Cls) and ("__getattr__" in st.get(c.a).attrs or "__getattribute__" in st.get(c.a).attrs) for c in ops.mro(I, o.cls)):
        return None
    names = list(o.attrs)
    for c in ops.mro(I, o.cls):
        names += [n for n in (st.get(c.a).attrs if isinstance(c, Cls) else dir(object)) if n not in names]
    names += [n for n in ("__dict__", "__module__", "__weakref__") if n not in names]
    res, todo = [], [st]
    for n in names:
        if not isinstance(n, str):
            return None
        rest = []
        for s in todo:
            for s2, e in ops.eqfork(I, s, name, C(n), node):
                if isinstance(e, Raise):
                    return None
                if e:
                    res.append((s2, C(n)))
                else:
                    rest.append(s2)
        todo = rest
    return res + [(s, name) for s in todo]


def attr_by_name(I, st, ob, name, node, default=None):
    import ops
    if isinstance(name, C):
        return ops.getattr_(I, st, ob, name.v, node, default)
    nm = by_name(I, st, ob, name, node)
    if nm is not None:
        res = []
        for s, n in nm:
            if isinstance(n, C):
                res += ops.getattr_(I, s, ob, n.v, node, default)
            else:
                res += [(s, default)] if default is not None else I.implicit(s, "AttributeError", node, "no such attribute")
        return res
    if isinstance(ob, Ref) and isinstance(st.get(ob.a), Inst):
        vals = list(st.get(ob.a).attrs.values())
        I.note("attribute of unknown name", node)
        return [(st, mkun(vals + ([default] if default is not None else [])) if vals else Top())]
    return [(st, Top(None, "getattr"))]


@reg("getattr")
def _getattr(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args[:2]):
        res += attr_by_name(I, s, a[0], a[1], node, args[2] if len(args) > 2 else None)
    return res


@reg("setattr")
def _setattr(I, st, f, args, kw, node):
    import ops
    res = []
    for s, a in forced(I, st, args[:2]):
        if isinstance(a[1], C):
            res += [(x, r if isinstance(r, Raise) else NONE) for x, r in ops.setattr_(I, s, a[0], a[1].v, args[2], node)]
            continue
        nm = by_name(I, s, a[0], a[1], node)
        if nm is not None and all(isinstance(n, C) for _, n in nm):
            for s2, n in nm:
                res += [(x, r if isinstance(r, Raise) else NONE) for x, r in ops.setattr_(I, s2, a[0], n.v, args[2], node)]
        else:
            I.note("setattr of unknown name", node)
            res.append((s, NONE))
    return res


@reg("delattr")
def _delattr(I, st, f, args, kw, node):
    import ops
    res = []
    for s, a in forced(I, st, args[:2]):
        res += [(x, r if isinstance(r, Raise) else NONE) for x, r in ops.delattr_(I, s, a[0], a[1].v, node)]
    return res


@reg("type")
def _type(I, st, f, args, kw, node):
    import ops
    if len(args) == 3:
        return topnote(I, st, "type()", node)
    res = []
    for s, v in ops.force(I, st, args[0]):
        for s2, c in ops.getattr_(I, s, v, "__class__", node, Top(None, "class")):
            res.append((s2, c))
    return res


@reg("vars")
def _vars(I, st, f, args, kw, node):
    import ops
    if not args:
        return topnote(I, st, "vars()", node)
    return [r for s, v in ops.force(I, st, args[0]) for r in ops.getattr_(I, s, v, "__dict__", node)]


@reg("id")
def _id(I, st, f, args, kw, node):
    return nondet(I, st, "id", node, INT)


def do_hash(I, st, v, node):
    import ops
    if isinstance(v, Ref):
        o = st.get(v.a)
        bad = ops.hash_check(I, st, v, node)
        if bad:
            return [(st, bad)]
        if isinstance(o, Inst) and isinstance(o.cls, Cls) and o.cls.kind in ("class", "dataclass"):
            h = ops.class_attr(I, st, o.cls, "__hash__")
            if isinstance(h, C) and h.v is None:
                return I.implicit(st, "TypeError", node, "unhashable type")
            # a class defining __eq__ without __hash__ is unhashable
            for c in ops.mro(I, o.cls):
                if isinstance(c, Cls):
                    at = st.get(c.a).attrs
                    if "__hash__" in at:
                        break
                    if "__eq__" in at:
                        return I.implicit(st, "TypeError", node, "unhashable type (defines __eq__ only)")
            if h is not None and not isinstance(h, Bi):
                res = []
                for s, r in I.call(st, h, [("E", v)], [], node, "hash"):
                    if isinstance(r, Raise):
                        res.append((s, r))
                        continue
                    for s2, x in ops.force(I, s, r):
                        t = ops.types_of(s2, x)
                        if t is not None and not (t & frozenset(["int", "bool"])):
                            res += I.implicit(s2, "TypeError", node, "__hash__ method should return an integer")
                        else:
                            res.append((s2, x))
                return res
        if isinstance(o, Inst):
            return [(st, Term("idhash", (v,), INT))]
    if isinstance(v, Tup):
        for k, x, _ in v.segs:
            bad = ops.hash_check(I, st, x, node) if isinstance(x, Ref) else None
            if bad:
                return [(st, bad)]
    return [(st, Term("hash", (v,), INT) if not isinstance(v, (Un, Ch)) else Top(INT))]


@reg("hash")
def _hash(I, st, f, args, kw, node):
    import ops
    return [r for s, v in ops.force(I, st, args[0]) for r in do_hash(I, s, v, node)]


@reg("callable")
def _callable(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        if isinstance(v, Ref):
            o = s.get(v.a)
            res.append((s, B(isinstance(o, Inst) and ops.class_attr(I, s, o.cls, "__call__") is not None)))
        else:
            res.append((s, B(isinstance(v, (Fn, Bound, Bi, Cls, Wrapped)))))
    return res


# --- constructors
@reg("int")
def _int(I, st, f, args, kw, node):
    import ops
    if not args:
        return [(st, C(0))]
    res = []
    for s, a in forced(I, st, args):
        v = a[0]
        if allc(a):
            try:
                res.append((s, C(int(*[x.v for x in a]))))
            except Exception as e:
                res += I.implicit(s, type(e).__name__, node, str(e))
            continue
        t = ops.types_of(s, v)
        if t is not None and t <= INT:
            res.append((s, v))
        elif isinstance(v, Ref):
            res += I.implicit(s, "TypeError", node, "int() argument")
        elif isinstance(v, Term) and v.op == "str" and len(a) == 1 and ops.types_of(s, v.args[0]) == INT:
            res.append((s, v.args[0]))
        elif isinstance(v, (Sym, Cat, Term, Poly)):
            if t is not None and t <= STR and not is_digits(v) and I.maybe(s, "ValueError"):
                res += I.implicit(s.ifork("int()"), "ValueError", node, "int()")
            res += rounded(s, Term("int", a, INT), v) if len(a) == 1 else [(s, Term("int", a, INT))]
        else:
            res.append((s, Top(INT)))
    return res


def is_digits(v):
    if isinstance(v, Cat):
        return all((p.isdigit() if isinstance(p, str) else is_digits(p)) for p in v.parts)
    return isinstance(v, Sym) and v.nochars == DIGITS_NO


@reg("float")
def _float(I, st, f, args, kw, node):
    import ops
    if not args:
        return [(st, C(0.0))]
    res = []
    for s, a in forced(I, st, args):
        v = a[0]
        if isinstance(v, C):
            try:
                res.append((s, C(float(v.v))))
            except Exception as e:
                res += I.implicit(s, type(e).__name__, node, str(e))
            continue
        t = ops.types_of(s, v)
        if t is not None and t <= NUM and not isinstance(v, Top):
            res.append((s, v))
        elif isinstance(v, Ref):
            res += I.implicit(s, "TypeError", node, "float() argument")
        elif isinstance(v, Term) and v.op == "str" and ops.types_of(s, v.args[0]) is not None and ops.types_of(s, v.args[0]) <= NUM:
            res.append((s, v.args[0]))
        elif isinstance(v, (Sym, Cat, Term)):
            if I.maybe(s, "ValueError"):
                res += I.implicit(s.ifork("float()"), "ValueError", node, "float()")
            res.append((s, Term("float", (v,), frozenset(["float"]))))
        else:
            res.append((s, Top(frozenset(["float"]))))
    return res


@reg("str", "repr", "ascii")
def _str(I, st, f, args, kw, node):
    import ops
    if not args:
        return [(st, C(""))]
    if f.name != "str":
        res = []
        for s, v in ops.force(I, st, args[0]):
            if isinstance(v, C):
                res.append((s, C(repr(v.v))))
            else:
                res.append((s, Term("repr", (v,), STR) if isinstance(v, (Sym, Cat, Term)) else Top(STR)))
        return res
    return ops.tostr(I, st, args[0], node)


@reg("format")
def _format(I, st, f, args, kw, node):
    import ops
    if len(args) == 1:
        return ops.tostr(I, st, args[0], node)
    return [(st, Top(STR))]


@reg("analysis.file")
def _file(I, st, f, args, kw, node):
    """the file args[0] holds the document args[1] (drivers only)"""
    disk_put(I, st, normpath(_pathstr(args[0])), args[1])
    return [(st, NONE)]


def disk_put(I, st, path, doc):
    o = st.get(I.disk)
    st.set(I.disk, o.with_(items=[e for e in o.items if e[0] != path] + [(path, doc, "must")]))


def disk_get(I, st, path):
    for k, v, p in st.get(I.disk).items:
        if k == path:
            return v if p == "must" else None
    return None


def json_copy(I, st, v, node):
    """what is left of a value that is written as JSON and read again"""
    c = Copier(I, st, node, True)
    return c.val(v)


@reg("analysis.other_set_order")
def _other_set_order(I, st, f, args, kw, node):
    """from here on sets are iterated the other way round (drivers only)"""
    st.facts[("set order",)] = True
    return [(st, NONE)]


@reg("bool")
def _bool(I, st, f, args, kw, node):
    import ops
    if not args:
        return [(st, FALSE)]
    return [(s, b if isinstance(b, Raise) else B(b)) for s, b in ops.truth(I, st, args[0], node)]


def tolist(I, st, it, node, kind="list", extra=None):
    import ops
    if it is None:
        return [(st, newlist(I, st, node, (), kind, extra))]
    res = []
    for s, v in ops.force(I, st, it):
        un = is_unord(s, v)
        for s2, g in ops.iter_segs(I, s, v, node):
            if isinstance(g, Raise):
                res.append((s2, g))
            else:
                res.append((s2, newlist(I, s2, node, g[0], kind, extra, un or g[2] == "unord")))
    return res


@reg("list")
def _list(I, st, f, args, kw, node):
    return tolist(I, st, args[0] if args else None, node)


@reg("collections.deque")
def _deque(I, st, f, args, kw, node):
    return tolist(I, st, args[0] if args else None, node, "deque")


@reg("iter")
def _iter(I, st, f, args, kw, node):
    return tolist(I, st, args[0], node, "iter", "it")


@reg("tuple")
def _tuple(I, st, f, args, kw, node):
    if not args:
        return [(st, Tup(()))]
    return [(s, g if isinstance(g, Raise) else Tup(g)) for s, g in seqs(I, st, args[0], node)]


@reg("set", "frozenset")
def _set(I, st, f, args, kw, node):
    import ops
    fz = f.name == "frozenset"
    if not args:
        return [(st, I.alloc(st, node, SetO((), fz)))]
    res = []
    for s, v in ops.force(I, st, args[0]):
        if isinstance(v, Ref) and isinstance(s.get(v.a), SetO):
            res.append((s, I.alloc(s, node, SetO(s.get(v.a).items, fz))))
            continue
        for s2, g in seqs(I, s, v, node):
            if isinstance(g, Raise):
                res.append((s2, g))
            else:
                res += ops.set_from_segs(I, s2, g, node, fz)
    return res


@reg("dict", "collections.OrderedDict")
def _dict(I, st, f, args, kw, node):
    import ops
    kind = "OrderedDict" if f.name != "dict" else "dict"
    r = I.alloc(st, node, DictO((), kind))
    st.tmps = st.tmps + (r,)
    cur = [(st, None)]
    if args:
        un = is_unord(st, args[0])
        cur = ops.dict_update(I, st, r, args[0], node)
        if un:
            for s, x in cur:
                s.set(r.a, s.get(r.a).with_(unord=True))
    res = []
    for s, x in cur:
        s.tmps = s.tmps[:-1]
        if isinstance(x, Raise):
            res.append((s, x))
            continue
        for k, v in kw.items():
            ops.setitem(I, s, r, C(k), v, node)
        res.append((s, r))
    return res


@reg("collections.defaultdict")
def _defaultdict(I, st, f, args, kw, node):
    import ops
    fac = args[0] if args and not (isinstance(args[0], C) and args[0].v is None) else None
    r = I.alloc(st, node, DictO((), "defaultdict", fac))
    if len(args) > 1:
        return [(s, x if isinstance(x, Raise) else r) for s, x in ops.dict_update(I, st, r, args[1], node)]
    return [(st, r)]


@reg("collections.Counter")
def _counter(I, st, f, args, kw, node):
    import ops
    r = I.alloc(st, node, DictO((), "Counter"))
    if not args:
        return [(st, r)]
    st.tmps = st.tmps + (r,)

    def body(s, e):
        res = []
        for s1, k in ops.force(I, s, e):
            for s2, cur in ops.dict_get(I, s1, r, k, node, C(0)):
                for s3, nv in ops.binop(I, s2, ast.Add(), cur, C(1), node) if not isinstance(cur, (Ch, Un)) else [(s2, Top(INT))]:
                    res += ops.setitem(I, s3, r, k, nv, node)
        return res
    norm, exc = loop(I, st, args[0], node, body)
    for s in norm:
        s.tmps = s.tmps[:-1]
    return [(s, r) for s in norm] + exc


@reg("object")
def _object(I, st, f, args, kw, node):
    return [(st, I.alloc(st, node, Inst(Bi("object"), {})))]


@reg("range")
def _range(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args):
        res.append((s, Bi("range", None, tuple(a))))
    return res


def range_segs(I, st, v, node):
    import ops
    a = v.extra or ()
    if len(a) == 1:
        lo, hi, stp = C(0), a[0], C(1)
    elif len(a) == 2:
        lo, hi, stp = a[0], a[1], C(1)
    else:
        lo, hi, stp = a
    if allc([lo, hi, stp]):
        try:
            r = range(lo.v, hi.v, stp.v)
        except (TypeError, ValueError) as e:
            return I.implicit(st, type(e).__name__, node, str(e))
        if len(r) <= 200:
            return [(st, (tuple(("E", C(i), None) for i in r), None, None))]
        return [(st, ((("R", Top(INT), None),), None, None))]
    # range(len(x)): mirror the segment structure of the counted length
    if lo == C(0) and stp == C(1):
        p = poly_of(hi)
        if p is not None and not isinstance(hi, (Len, Top)):
            segs = I.lenshape.get(hi)
            if segs is not None:
                return [(st, (segs, None, None))]
            k = p.get((), 0)
            cnts = [(m, c) for m, c in p.items() if m]
            if len(cnts) == 1 and cnts[0][1] == 1 and len(cnts[0][0]) == 1 and k == 0:
                cnt = cnts[0][0][0]
                if isinstance(cnt, Sym) and cnt.name.startswith("#"):
                    return [(st, ((("R", Idx(C(0), cnt), cnt),), None, None))]
    return [(st, ((("R", Top(INT), None),), None, None))]


@reg("enumerate")
def _enumerate(I, st, f, args, kw, node):
    import ops
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    res = []
    for s, v in ops.force(I, st, args[0]):
        for s2, g in ops.iter_segs(I, s, v, node):
            if isinstance(g, Raise):
                res.append((s2, g))
                continue
            segs = []
            for p, (k, x, c) in enumerate(g[0]):
                pf = ops.prefix(g[0], p)
                if pf is None:
                    i = Top(INT)
                else:
                    i = poly_add(poly_of(pf), poly_of(start)) if poly_of(start) is not None else Top(INT)
                    if k == "R":
                        i = Idx(i, c) if c is not None else Top(INT)
                segs.append((k, tup(i, x), c))
            # keep the mutation-sensitive link to a list only for element identity: snapshot semantics noted
            res.append((s2, newlist(I, s2, node, segs, "iter", "enum", is_unord(s, v))))
    return res


@reg("zip", "itertools.zip_longest")
def _zip(I, st, f, args, kw, node):
    import ops
    cur = [(st, [])]
    for a in args:
        nx = []
        for s, acc in cur:
            for s2, g in seqs(I, s, a, node):
                if isinstance(g, Raise):
                    return [(s2, g)]
                nx.append((s2, acc + [g]))
        cur = nx
    res = []
    for s, gs in cur:
        # aligned structure?
        if gs and all(len(g) == len(gs[0]) for g in gs) and all(
                all(g[i][0] == gs[0][i][0] and (g[i][0] == "E" or (g[i][2] is not None and g[i][2] == gs[0][i][2])) for g in gs)
                for i in range(len(gs[0]))):
            segs = [(gs[0][i][0], tup(*[g[i][1] for g in gs]), gs[0][i][2]) for i in range(len(gs[0]))]
        elif gs and all(all(k == "E" for k, _, _ in g) for g in gs):
            n = min(len(g) for g in gs) if f.name == "zip" else max(len(g) for g in gs)
            fill = kw.get("fillvalue", NONE)
            segs = [("E", tup(*[g[i][1] if i < len(g) else fill for g in gs]), None) for i in range(n)]
        else:
            # common aligned prefix of exact elements, the rest blended
            n = 0
            while all(n < len(g) and g[n][0] == "E" for g in gs):
                n += 1
            segs = [("E", tup(*[g[i][1] for g in gs]), None) for i in range(n)]
            rest = [[x for _, x, _ in g[n:]] for g in gs]
            if all(rest):
                segs.append(("R", tup(*[mkun(r) for r in rest]), None))
        res.append((s, newlist(I, s, node, segs, "iter", "zip")))
    return res


@reg("map")
def _map(I, st, f, args, kw, node):
    if len(args) > 2:
        res = []
        for s, z in _zip(I, st, Bi("zip"), args[1:], {}, node):
            if isinstance(z, Raise):
                res.append((s, z))
            else:
                res += collect(I, s, z, node, lambda s2, e: I.call(s2, args[0], [("E", x) for _, x, _ in e.segs], [], node))
        return res
    return collect(I, st, args[1], node, lambda s, e: I.call(s, args[0], [("E", e)], [], node))


@reg("filter", "itertools.filterfalse")
def _filter(I, st, f, args, kw, node):
    import ops
    want = f.name == "filter"

    def fn(s, e):
        res = []
        if isinstance(args[0], C) and args[0].v is None:
            outs = [(s, e)]
        else:
            s.tmps = s.tmps + (e,)
            outs = I.call(s, args[0], [("E", e)], [], node)
            for x, _ in outs:
                x.tmps = x.tmps[:-1]
        for s2, v in outs:
            if isinstance(v, Raise):
                res.append((s2, v))
                continue
            for s3, b in ops.truth(I, s2, v, node):
                res.append((s3, b if isinstance(b, Raise) else (e if b == want else None)))
        return res
    return collect(I, st, args[1], node, fn)


@reg("itertools.chain")
def _chain(I, st, f, args, kw, node):
    import ops
    r = newlist(I, st, node, (), "iter", "chain")
    cur = [(st, None)]
    for a in args:
        nx = []
        for s, x in cur:
            if isinstance(x, Raise):
                nx.append((s, x))
            else:
                nx += ops.list_extend(I, s, r, a, node)
        cur = nx
    return [(s, x if isinstance(x, Raise) else r) for s, x in cur]


@reg("itertools.chain.from_iterable")
def _chainfi(I, st, f, args, kw, node):
    import ops
    acc = newlist(I, st, node, (), "iter", "chain")
    st.tmps = st.tmps + (acc,)
    norm, exc = loop(I, st, args[0], node, lambda s, e: [(s2, r if isinstance(r, Raise) else None) for s2, r in ops.list_extend(I, s, acc, e, node)])
    for s in norm:
        s.tmps = s.tmps[:-1]
    return [(s, acc) for s in norm] + exc


@reg("itertools.islice")
def _islice(I, st, f, args, kw, node):
    import ops
    res = []
    sl = [NONE, args[1], NONE] if len(args) == 2 else list(args[1:]) + [NONE] * (4 - len(args))
    for s, g in seqs(I, st, args[0], node):
        res += [(s, g)] if isinstance(g, Raise) else ops.getslice_segs(I, s, g, sl, node, "list")
    return res


@reg("itertools.count", "itertools.repeat", "itertools.cycle", "itertools.product", "itertools.permutations", "itertools.combinations",
     "itertools.groupby", "itertools.accumulate", "itertools.takewhile", "itertools.dropwhile", "itertools.starmap", "itertools.tee")
def _itother(I, st, f, args, kw, node):
    I.note("approximated " + f.name, node)
    return [(st, newlist(I, st, node, (("R", Top(None, f.name), None),), "iter", "it"))]


@reg("reversed")
def _reversed(I, st, f, args, kw, node):
    return [(s, g if isinstance(g, Raise) else newlist(I, s, node, tuple(reversed(g)), "iter", "rev")) for s, g in seqs(I, st, args[0], node)]


def sort_segs(I, st, segs, keys, node, reverse):
    """order segments by their keys when the order is decided; -> (segs, decided)"""
    import ops
    idx = list(range(len(segs)))
    decided = True

    def cmp(i, j):
        a, b = keys[i], keys[j]
        if isinstance(a, Tup) and isinstance(b, Tup):
            for (_, x, _), (_, y, _) in zip(a.segs, b.segs):
                o = ops.order(I, st, x, y)
                if o in ("lt", "gt"):
                    return o
                if o != "eq":
                    return None
            return "eq"
        return ops.order(I, st, a, b)
    # insertion sort on the partial knowledge
    out = []
    for i in idx:
        pos = len(out)
        while pos > 0:
            o = cmp(i, out[pos - 1])
            if o == "lt" and not reverse or o == "gt" and reverse:
                pos -= 1
                continue
            if o not in ("gt", "eq", "lt"):
                decided = False
            break
        out.insert(pos, i)
    if decided:
        for x, y in zip(out, out[1:]):
            if cmp(x, y) not in ("lt", "eq", "gt"):
                decided = False
    return [segs[i] for i in out], decided


@reg("sorted")
def _sorted(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        for s2, g in ops.iter_segs(I, s, v, node):
            if isinstance(g, Raise):
                res.append((s2, g))
                continue
            for s3, segs in sort_with(I, s2, g[0], kw, node, is_unord(s, v)):
                res.append((s3, segs if isinstance(segs, Raise) else newlist(I, s3, node, segs, "list", "sorted")))
    return res


def sort_with(I, st, segs, kw, node, unord):
    import ops
    key = kw.get("key")
    rev = kw.get("reverse", FALSE)
    reverse = isinstance(rev, C) and bool(rev.v)
    if not isinstance(rev, C):
        I.note("sort with unknown direction", node)
    if len(segs) == 0:
        return [(st, segs)]
    cur = [(st, [])]
    if key is not None and not (isinstance(key, C) and key.v is None):
        st.tmps = st.tmps + (Tup(segs),)
        for i, (k, v, c) in enumerate(segs):
            nx = []
            for s, ks in cur:
                if isinstance(ks, Raise):
                    nx.append((s, ks))
                    continue
                s.tmps = s.tmps + (tup(*ks),)
                for s2, kv in I.call(s, key, [("E", v)], [], node, ("key", i)):
                    s2.tmps = s2.tmps[:-1]
                    nx.append((s2, kv if isinstance(kv, Raise) else ks + [kv]))
            cur = nx
        for s, _ in cur:
            s.tmps = s.tmps[:-1]
    else:
        cur = [(st, [v for _, v, _ in segs])]
    res = []
    for s, ks in cur:
        if isinstance(ks, Raise):
            res.append((s, ks))
            continue
        out, ok = sort_segs(I, s, list(segs), ks, node, reverse)
        if ok and all(k != "R" or isinstance(kv, Idx) or len(segs) == 1 for (k, _, _), kv in zip(segs, ks)):
            # a summarised run stays in place only if its keys increase with its positions
            if reverse:
                out = [(k, v, c) for k, v, c in out]
            res.append((s, tuple(out)))
        elif len(segs) == 1:
            res.append((s, segs))
        else:
            rs = [x for x in segs if x[0] != "E"]
            es = [x for x in segs if x[0] == "E"]
            if not rs:
                I.note("sort order of exact elements undecided", node)
                res.append((s, tuple(segs)))
            else:
                blend = ("R", mkun([x[1] for x in rs]), None)
                o2 = [blend]
                for e in es:
                    o2 += [e, blend]
                res.append((s, tuple(o2)))
    return res


@reg("any", "all")
def _any(I, st, f, args, kw, node):
    import ops
    isany = f.name == "any"
    res = []
    for s, g in seqs(I, st, args[0], node):
        if isinstance(g, Raise):
            res.append((s, g))
            continue
        s.tmps = s.tmps + (Tup(g),)
        cur = [s]
        for k, v, c in g:
            nx = []
            for s1 in cur:
                if k != "E":
                    nx.append(s1.ifork("any/all"))
                for s2, b in ops.truth(I, s1, v, node):
                    if isinstance(b, Raise):
                        res.append((s2, b))
                    elif b == isany:
                        res.append((s2, B(isany)))
                    else:
                        nx.append(s2)
            cur = merge(nx, limit=I.limit)
        res += [(x, B(not isany)) for x in cur]
        for x, _ in res:
            pass
    for x, _ in res:
        if x.tmps and isinstance(x.tmps[-1], Tup):
            x.tmps = x.tmps[:-1]
    return res


@reg("sum", "math.fsum")
def _sum(I, st, f, args, kw, node):
    import ops
    start = args[1] if len(args) > 1 else kw.get("start", C(0))
    cell = newlist(I, st, node, (("E", start, None),), "list", "sum")
    st.tmps = st.tmps + (cell,)

    def body(s, e):
        res = []
        cur = s.get(cell.a).segs[0][1]
        for s1, a in forced(I, s, [cur, e]):
            for s2, v in ops.binop(I, s1, ast.Add(), a[0], a[1], node):
                if isinstance(v, Raise):
                    res.append((s2, v))
                else:
                    s2.set(cell.a, s2.get(cell.a).with_(segs=(("E", v, None),)))
                    res.append((s2, None))
        return res
    norm, exc = loop(I, st, args[0], node, body)
    res = []
    for s in norm:
        s.tmps = s.tmps[:-1]
        res.append((s, s.get(cell.a).segs[0][1]))
    return res + exc


@reg("functools.reduce")
def _reduce(I, st, f, args, kw, node):
    import ops
    fn = args[0]
    res = []
    for s0, v in ops.force(I, st, args[1]):
        for s, g in seqs(I, s0, v, node):
            if isinstance(g, Raise):
                res.append((s, g))
                continue
            starts = []
            if len(args) > 2:
                starts.append((s, args[2], g))
            else:
                # the first element: the first certain one, or one of the optional ones before it
                seen = []
                done = False
                for i, (k, x, c) in enumerate(g):
                    if k == "E":
                        starts.append((s, x, g[i + 1:]))
                        done = True
                        break
                    x1 = s.ifork("reduce")
                    starts.append((x1, x, ((k, x, None),) + tuple(g[i + 1:]) if k == "R" else tuple(g[i + 1:])))
                if not done:
                    res += I.implicit(s.ifork("reduce") if g else s.fork(), "TypeError", node, "reduce() of empty iterable with no initial value")
            for s1, init, rest in starts:
                cell = newlist(I, s1, node, (("E", init, None),), "list", "reduce")
                s1.tmps = s1.tmps + (cell,)

                def body(s2, e):
                    out = []
                    cur = s2.get(cell.a).segs[0][1]
                    s2.tmps = s2.tmps + (e,)
                    for s3, r in I.call(s2, fn, [("E", cur), ("E", e)], [], node):
                        s3.tmps = s3.tmps[:-1]
                        if isinstance(r, Raise):
                            out.append((s3, r))
                        else:
                            s3.set(cell.a, s3.get(cell.a).with_(segs=(("E", r, None),)))
                            out.append((s3, None))
                    return out
                norm, exc = loop(I, s1, Tup(rest), node, body)
                for s2 in norm:
                    s2.tmps = s2.tmps[:-1]
                    res.append((s2, s2.get(cell.a).segs[0][1]))
                res += exc
    return I.merge_vals(res)


@reg("min", "max")
def _min(I, st, f, args, kw, node):
    import ops
    res = []
    if len(args) == 1:
        items = seqs(I, st, args[0], node)
    else:
        items = [(st, tuple(("E", a, None) for a in args))]
    for s, g in items:
        if isinstance(g, Raise):
            res.append((s, g))
            continue
        if not g:
            res += [(s, kw["default"])] if "default" in kw else I.implicit(s, "ValueError", node, "empty sequence")
            continue
        for s2, out in sort_with(I, s, g, {k: v for k, v in kw.items() if k == "key"}, node, False):
            if isinstance(out, Raise):
                res.append((s2, out))
            elif len(out) == 1 and out[0][0] == "E":
                res.append((s2, out[0][1]))
            elif all(k == "E" for k, _, _ in out) and allc([v for _, v, _ in out]):
                res.append((s2, C((min if f.name == "min" else max)([v.v for _, v, _ in out]))))
            else:
                vs = [v for _, v, _ in out] + ([kw["default"]] if "default" in kw and all(k != "E" for k, _, _ in out) else [])
                ts = [ops.types_of(s2, v) for v in vs]
                if all(t is not None and t <= NUM for t in ts) and "key" not in kw:
                    res.append((s2, Term(f.name, vs, NUM) if not any(isinstance(v, (Un, Ch)) for v in vs) else Top(NUM)))
                else:
                    res.append((s2, mkun(vs)))
    return res


@reg("next")
def _next(I, st, f, args, kw, node):
    import ops
    default = args[1] if len(args) > 1 else None
    res = []
    for s, v in ops.force(I, st, args[0]):
        o = s.get(v.a) if isinstance(v, Ref) else None
        if isinstance(o, Inst):
            m = ops.class_attr(I, s, o.cls, "__next__")
            if m is not None and not isinstance(m, Bi):
                res += I.call(s, m, [("E", v)], [], node)
                continue
        if isinstance(o, ListO) and o.kind == "iter" or isinstance(v, Bi) and v.name.startswith("view."):
            segs = o.segs if isinstance(o, ListO) else ()
            done = False
            for i, (k, x, c) in enumerate(segs):
                if k == "E":
                    if not o.summ:
                        s.set(v.a, o.with_(segs=segs[i + 1:]))
                    res.append((s, x))
                    done = True
                    break
                s2 = s.ifork("next")
                s2.set(v.a, o.with_(segs=(((k, x, None),) if k == "R" else ()) + tuple(segs[i + 1:])))
                res.append((s2, x))
            if not done:
                if isinstance(o, ListO) and not o.summ:
                    s.set(v.a, o.with_(segs=()))
                if default is not None:
                    res.append((s, default))
                else:
                    res += I.implicit(s, "StopIteration", node, "next()")
            continue
        res.append((s, Top(None, "next")))
    return I.merge_vals(res)


# --- functools / operator / copy / contextlib / dataclasses
@reg("functools.partial")
def _partial(I, st, f, args, kw, node):
    return [(st, Bi("partial", None, (args[0], tup(*args[1:]), tup(*[tup(C(k), v) for k, v in kw.items()]))))]


@reg("functools.wraps", "functools.update_wrapper")
def _wraps(I, st, f, args, kw, node):
    return [(st, Bi("identity"))]


@reg("identity", "functools.total_ordering", "typing.final", "contextlib.contextmanager", "abc.abstractmethod", "enum.unique", "atexit.unregister")
def _identity(I, st, f, args, kw, node):
    if f.name == "functools.total_ordering":
        return total_ordering(I, st, args[0], node)
    if f.name == "contextlib.contextmanager":
        return [(st, Wrapped("ctxmgr", args[0]))]
    return [(st, args[0])]


def total_ordering(I, st, cls, node):
    o = st.get(cls.a)
    at = dict(o.attrs)
    have = [n for n in ("__lt__", "__gt__", "__le__", "__ge__") if n in at]
    if have:
        root = have[0]
        for n in ("__lt__", "__gt__", "__le__", "__ge__"):
            if n not in at:
                at[n] = synth_order(I, root, n, cls)
        st.set(cls.a, ClsO(at))
    return [(st, cls)]


MEMO = ast.parse("""def memoised(fn, cache):
    def wrapper(*args, **kwargs):
        key = (args, *kwargs.items())
        if key in cache:
            return cache[key]
        value = fn(*args, **kwargs)
        cache[key] = value
        return value
    return wrapper
""").body[0]


def memoised(I, st, d, fn, node):
    """a function that remembers its results (all of them: sizes are not modelled)"""
    if not isinstance(fn, (Fn, Wrapped)):
        return [(st, fn)]
    I.index(MEMO, "functools")
    info = I.make_info(MEMO, "functools.memoised", "", None)
    cache = I.alloc(st, node, DictO(()), "memo")
    inner = fn.fn if isinstance(fn, Wrapped) else fn
    res = []
    for s, w in I.call(st, Fn(info, None), [("E", inner), ("E", cache)], [], node, "memo"):
        res.append((s, w if isinstance(w, Raise) else Wrapped("cached", w, cache)))
    return res


ORDER_SRC = {
    ("__lt__", "__gt__"): "lambda self, other: not (self.__lt__(other) or self == other)",
    ("__lt__", "__le__"): "lambda self, other: self.__lt__(other) or self == other",
    ("__lt__", "__ge__"): "lambda self, other: not self.__lt__(other)",
    ("__gt__", "__lt__"): "lambda self, other: not (self.__gt__(other) or self == other)",
    ("__gt__", "__ge__"): "lambda self, other: self.__gt__(other) or self == other",
    ("__gt__", "__le__"): "lambda self, other: not self.__gt__(other)",
    ("__le__", "__lt__"): "lambda self, other: self.__le__(other) and not self == other",
    ("__le__", "__gt__"): "lambda self, other: not self.__le__(other)",
    ("__le__", "__ge__"): "lambda self, other: not self.__le__(other) or self == other",
    ("__ge__", "__gt__"): "lambda self, other: self.__ge__(other) and not self == other",
    ("__ge__", "__lt__"): "lambda self, other: not self.__ge__(other)",
    ("__ge__", "__le__"): "lambda self, other: not self.__ge__(other) or self == other",
}


def synth_order(I, root, n, cls):
    node = ast.parse(ORDER_SRC[(root, n)], mode="eval").body
    I.index(node, "functools")
    info = I.make_info(node, cls.qual + "." + n, "", cls)
    return Fn(info, None)


@reg("functools.lru_cache", "functools.cache", "functools.cached_property", "functools.singledispatch")
def _lru(I, st, f, args, kw, node):
    if args and isinstance(args[0], (Fn, Wrapped)):
        return decorate(I, st, f, args[0], node)
    return [(st, Bi(f.name))]


@reg("dataclasses.dataclass")
def _dc(I, st, f, args, kw, node):
    if args and isinstance(args[0], Cls):
        return decorate(I, st, f, args[0], node)
    return [(st, Bi("dataclasses.dataclass", None, tuple(k for k, v in kw.items() if isinstance(v, C) and v.v)))]


@reg("dataclasses.field")
def _field(I, st, f, args, kw, node):
    return [(st, Bi("$field", None, (kw.get("default", MISSING), kw.get("default_factory", MISSING))))]


@reg("dataclasses.asdict", "dataclasses.replace", "dataclasses.fields", "dataclasses.astuple")
def _dcother(I, st, f, args, kw, node):
    if f.name.endswith("replace") and isinstance(args[0], Ref):
        o = st.get(args[0].a)
        at = dict(o.attrs)
        at.update(kw)
        return [(st, I.alloc(st, node, o.with_(attrs=at, summ=False), "replace"))]
    return topnote(I, st, f.name, node)


@reg("operator.itemgetter")
def _ig(I, st, f, args, kw, node):
    return [(st, Bi("itemgetter", None, tuple(args)))]


@reg("operator.attrgetter")
def _ag(I, st, f, args, kw, node):
    return [(st, Bi("attrgetter", None, tuple(args)))]


@reg("operator.methodcaller")
def _mc(I, st, f, args, kw, node):
    return [(st, Bi("methodcaller", None, tuple(args)))]


def _opfn(cls):
    def h(I, st, f, args, kw, node):
        import ops
        return [r for s, a in forced(I, st, args) for r in ops.binop(I, s, cls(), a[0], a[1], node)]
    return h


def _cmpfn(cls):
    def h(I, st, f, args, kw, node):
        import ops
        return [(s2, r if isinstance(r, Raise) else B(r)) for s, a in forced(I, st, args) for s2, r in ops.compare(I, s, cls(), a[0], a[1], node)]
    return h


for _n, _c in (("or_", ast.BitOr), ("and_", ast.BitAnd), ("sub", ast.Sub), ("add", ast.Add), ("mul", ast.Mult), ("truediv", ast.Div), ("xor", ast.BitXor),
               ("mod", ast.Mod), ("concat", ast.Add), ("floordiv", ast.FloorDiv)):
    CALLS["operator." + _n] = _opfn(_c)
for _n, _c in (("eq", ast.Eq), ("ne", ast.NotEq), ("lt", ast.Lt), ("le", ast.LtE), ("gt", ast.Gt), ("ge", ast.GtE), ("is_", ast.Is), ("is_not", ast.IsNot)):
    CALLS["operator." + _n] = _cmpfn(_c)


@reg("operator.contains")
def _opcontains(I, st, f, args, kw, node):
    import ops
    return [(s, r if isinstance(r, Raise) else B(r)) for s, r in ops.contains(I, st, args[0], args[1], node)]


@reg("operator.getitem")
def _opgetitem(I, st, f, args, kw, node):
    import ops
    return [r for s, a in forced(I, st, args) for r in ops.getitem(I, s, a[0], a[1], node)]


@reg("operator.not_")
def _opnot(I, st, f, args, kw, node):
    import ops
    return [(s, b if isinstance(b, Raise) else B(not b)) for s, b in ops.truth(I, st, args[0], node)]


# copying ------------------------------------------------------------
def origin(I, a):
    ex = I.ctxs.addrinfo[a][2]
    if isinstance(ex, tuple) and ex and ex[0] == "dc":
        return ex[1]
    return a


class Copier:
    def __init__(self, I, st, node, deep):
        self.I, self.st, self.node, self.deep = I, st, node, deep
        self.memo, self.used = {}, {}
        self.exc = None

    def addr(self, a):
        r = origin(self.I, a)
        n = self.used.get(r, 0)
        self.used[r] = n + 1
        key = ("dc", r) if n == 0 else ("dc", r, n)
        return self.I.ctxs.mk(self.st.ctx, self.I.nid(self.node) if self.node is not None else "ext", key)

    def val(self, v):
        if isinstance(v, Ref):
            return self.ref(v)
        if isinstance(v, Ch):
            return Ch(v.tok, tuple((l, self.val(x)) for l, x in v.alts))
        if isinstance(v, Un):
            return Un(frozenset(self.val(x) for x in v.vals))
        if isinstance(v, Tup):
            return Tup([(k, self.val(x), c) for k, x, c in v.segs])
        if isinstance(v, Bound):
            return Bound(self.val(v.self_), v.fn)
        if isinstance(v, Len):
            return v
        return v

    def ref(self, v):
        if v.a in self.memo:
            return self.memo[v.a]
        st, I = self.st, self.I
        o = st.get(v.a)
        if isinstance(o, Inst):
            if isinstance(o.cls, Cls) and o.cls.kind == "enum" or isinstance(o.cls, Bi) and o.cls.name in ("object", "file", "lock", "re.Match"):
                return v
            import ops
            m = ops.class_attr(I, st, o.cls, "__deepcopy__" if self.deep else "__copy__")
            if m is not None and not isinstance(m, Bi):
                args = [("E", v)]
                if self.deep:
                    args.append(("E", newlist(I, st, self.node, (), "list", "memo") and I.alloc(st, self.node, DictO(()), "memo")))
                outs = I.call(st, m, args, [], self.node, "copy")
                if len(outs) != 1 or outs[0][0] is not st:
                    I.note("forking __deepcopy__", self.node)
                if outs:
                    if isinstance(outs[0][1], Raise):
                        self.exc = outs[0][1]
                        return v
                    self.memo[v.a] = outs[0][1]
                    if outs[0][0] is not st:
                        st.heap, st.facts = outs[0][0].heap, outs[0][0].facts
                    return outs[0][1]
                return v
        if isinstance(o, SetO) and o.frozen:
            return v
        a = self.addr(v.a)
        old = st.heap.get(a)
        live = old is not None and a in reach(st, tuple(self.memo.values()))
        r = Ref(a)
        self.memo[v.a] = r
        if isinstance(o, Inst):
            n = o.with_(attrs={k: self.val(x) for k, x in o.attrs.items()})
        elif isinstance(o, ListO):
            n = o.with_(segs=[(k, self.val(x), c) for k, x, c in o.segs])
        elif isinstance(o, DictO):
            n = o.with_(items=[(k if not isinstance(k, (Ref, Tup)) else self.val(k), self.val(x), p) for k, x, p in o.items])
        elif isinstance(o, SetO):
            n = o.with_(items=[(self.val(k), p) for k, p in o.items])
        else:
            self.memo[v.a] = v
            return v
        if live:
            try:
                j = joinobj(old, n, st, st, weak=True, widen=True)
            except Hard:
                j = n
            n = j.with_(summ=True)
        st.set(a, n)
        return r

    def shallow(self, v):
        st, I = self.st, self.I
        if isinstance(v, Ref):
            o = st.get(v.a)
            if isinstance(o, SetO) and o.frozen:
                return v
            if isinstance(o, Inst):
                if isinstance(o.cls, Cls) and o.cls.kind == "enum":
                    return v
                import ops
                m = ops.class_attr(I, st, o.cls, "__copy__")
                if m is not None and not isinstance(m, Bi):
                    return self.ref(v)
            return I.place(st, self.addr(v.a), o.with_(summ=o.summ))
        return v


@reg("copy.deepcopy", "copy.copy")
def _deepcopy(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        c = Copier(I, s, node, f.name == "copy.deepcopy")
        r = c.val(v) if c.deep else c.shallow(v)
        res.append((s, c.exc if c.exc is not None else r))
    return res


@reg("types.MappingProxyType", "types.SimpleNamespace", "weakref.proxy", "weakref.ref")
def _proxy(I, st, f, args, kw, node):
    if f.name == "types.SimpleNamespace":
        return [(st, I.alloc(st, node, Inst(Bi("types.SimpleNamespace"), dict(kw))))]
    return [(st, args[0])]


# json ---------------------------------------------------------------
PLAIN_JSON = frozenset(["fp", "s", "obj", "indent", "ensure_ascii", "separators", "sort_keys", "allow_nan", "check_circular", "strict"])


@reg("json.load", "json.loads")
def _jload(I, st, f, args, kw, node):
    import ops
    src = args[0] if args else kw.get("fp", kw.get("s"))
    path = text = None
    if f.name == "json.load" and isinstance(src, Ref):
        path = st.get(src.a).attrs.get("path", Top())
        st.note_eff("json.load", path)
    parse = kw.pop("parse_float", None) if "parse_float" in kw else None
    odd = [k for k in kw if k not in PLAIN_JSON and not (k == "object_pairs_hook" and isinstance(kw[k], Bi) and kw[k].name in ("dict", "collections.OrderedDict"))]
    if odd:
        return [(st, Top(None, "json.load with %s" % odd))]
    res = []
    for s, v in ops.force(I, st, src) if f.name == "json.loads" else [(st, src)]:
        if isinstance(v, Term) and v.op == "json":
            res.append((s, json_copy(I, s, v.args[0], node)))
            continue
        p = v.args[0] if isinstance(v, Term) and v.op == "content" else path
        d = disk_get(I, s, p) if p is not None else None
        if isinstance(d, Term) and d.op == "json":
            d = d.args[0]
        res.append((s, json_copy(I, s, d, node) if d is not None else Top(None, "json")))
    if parse is not None and parse not in (NONE, Bi("float")):
        res = [x for s, v in res for x in parsed(I, s, v, parse, node)]
    return res


PROBE = Sym("probe", frozenset(["float"]))


def parsed(I, st, v, f, node):
    """a read document whose numbers went through a function of their text: all of them, as one number shows it"""
    outs = I.call(st.fork(), f, [("E", Term("str", (PROBE,), STR))], [], node, "parse_float")
    vals = {x for _, x in outs}
    if vals == {PROBE}:
        return [(st, v)]
    changed = [x for x in vals if x != PROBE]
    if len(changed) != 1 or not isinstance(changed[0], Term) or not isinstance(v, Ref):
        return [(st, Top(None, "json.load with parse_float"))]
    c = Copier(I, st, node, True)
    c.val(v)
    s2 = st.fork()
    for a in list(c.memo):
        o = s2.get(a)
        fn = lambda x: sub_probe(s2, changed[0], x)
        if isinstance(o, ListO):
            s2.set(a, o.with_(segs=[(k, fn(x), n) for k, x, n in o.segs]))
        elif isinstance(o, DictO):
            s2.set(a, o.with_(items=[(k, fn(x), n) for k, x, n in o.items]))
    return ([(st, v)] if PROBE in vals else []) + [(s2, v)]


def sub_probe(s, t, x):
    import ops
    if not isinstance(x, Sym) or x.types is None or not x.types <= NUM or "float" not in x.types:
        return x

    def go(y):
        return x if y == PROBE else Term(y.op, tuple(go(z) for z in y.args), y.types) if isinstance(y, Term) else y
    r = go(t)
    s.facts[ops.eqkey(r, x)] = False
    return r


@reg("json.dump")
def _jdump(I, st, f, args, kw, node):
    fp = args[1] if len(args) > 1 else kw.get("fp")
    v = args[0] if args else kw.get("obj")
    path = Top()
    if isinstance(fp, Ref):
        path = st.get(fp.a).attrs.get("path", Top())
    v = json_copy(I, st, v, node)
    st.note_eff("dump", path, v, tuple(sorted((k, v) for k, v in kw.items() if k not in ("fp", "obj"))))
    disk_put(I, st, path, v)
    return [(st, NONE)]


@reg("json.dumps")
def _jdumps(I, st, f, args, kw, node):
    odd = [k for k in kw if k not in PLAIN_JSON]
    v = args[0] if args else kw.get("obj")
    return [(st, Term("json" if not odd else "json?", (json_copy(I, st, v, node),), STR))]


# files --------------------------------------------------------------
def _pathstr(v):
    if isinstance(v, Term) and v.op == "Path":
        return v.args[0]
    return v


def dirname(I, st, p, pathlib=False):
    p = _pathstr(p)
    if isinstance(p, C):
        import posixpath
        d = posixpath.dirname(p.v)
        if pathlib and d == "":
            d = "."
        return C(d)
    parts = list(p.parts) if isinstance(p, Cat) else [p]
    for i in range(len(parts) - 1, -1, -1):
        q = parts[i]
        if isinstance(q, str) and "/" in q:
            import posixpath
            head = q.rsplit("/", 1)[0]
            if i == 0:
                return C(posixpath.dirname(q[: q.rindex("/") + 1]) if head else "/")
            return mkcat(parts[:i] + [head])
        if not isinstance(q, str) and not (isinstance(q, Sym) and "/" in q.nochars):
            return Term("dirname", (p,), STR)
    return C("." if pathlib else "")


def basename(I, st, p):
    p = _pathstr(p)
    if isinstance(p, C):
        import posixpath
        return C(posixpath.basename(p.v))
    parts = list(p.parts) if isinstance(p, Cat) else [p]
    out = []
    for q in reversed(parts):
        if isinstance(q, str) and "/" in q:
            out.insert(0, q.rsplit("/", 1)[1])
            return mkcat(out)
        if not isinstance(q, str) and not (isinstance(q, Sym) and "/" in q.nochars):
            return Term("basename", (p,), STR)
        out.insert(0, q)
    return mkcat(out)


def path_join(I, st, a, b):
    a, b = _pathstr(a), _pathstr(b)
    if isinstance(a, C) and isinstance(b, C) and isinstance(a.v, str) and isinstance(b.v, str):
        import posixpath
        return C(posixpath.join(a.v, b.v))
    bp = b.parts[0] if isinstance(b, Cat) else (b.v if isinstance(b, C) else b)
    if isinstance(bp, str) and bp.startswith("/"):
        return b
    if isinstance(a, C) and a.v == "":
        return b
    al = a.parts[-1] if isinstance(a, Cat) else (a.v if isinstance(a, C) else None)
    if isinstance(al, str) and al and (isinstance(bp, str) and bp or isinstance(bp, Sym) and "/" in bp.nochars):
        return mkcat([a, b] if al.endswith("/") else [a, "/", b])
    return Term("pathjoin", (a, b), STR)


@reg("os.path.join")
def _osjoin(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args):
        if any(isinstance(x, C) and not isinstance(x.v, str) for x in a):
            res += I.implicit(s, "TypeError", node, "join() argument must be str")
            continue
        r = a[0]
        for b in a[1:]:
            r = path_join(I, s, r, b)
        res.append((s, r))
    return res


@reg("os.path.dirname", "os.path.basename", "os.path.split")
def _dirname(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args):
        p = _pathstr(a[0])
        if isinstance(p, C) and not isinstance(p.v, str):
            res += I.implicit(s, "TypeError", node, "path")
        elif f.name.endswith("split"):
            res.append((s, tup(dirname(I, s, p), basename(I, s, p))))
        else:
            res.append((s, dirname(I, s, p) if f.name.endswith("dirname") else basename(I, s, p)))
    return res


@reg("os.fspath", "os.fsdecode")
def _fspath(I, st, f, args, kw, node):
    return [(s, _pathstr(v)) for s, (v,) in forced(I, st, args)]


@reg("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.path.normcase", "os.path.relpath")
def _abspath(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args):
        p = _pathstr(a[0])
        leaf = f.name.rsplit(".", 1)[1]
        if isinstance(p, C) and isinstance(p.v, str) and p.v.startswith("/") and leaf != "relpath":
            import posixpath
            res.append((s, C(posixpath.normpath(p.v))))
        elif leaf == "abspath" or leaf == "realpath":
            # cwd-relative: same file, spelled absolutely
            res.append((s, mkcat([C("/cwd/"), p]) if not (isinstance(p, C) and p.v == "") else C("/cwd")))
        else:
            res.append((s, p))
    return res


def expanded(s, p, op, ch):
    """expanduser and expandvars change only texts that start with ~ or have a $"""
    import ops
    q = p
    while isinstance(q, Cat) and op == "expanduser":
        q = q.parts[0]
        q = C(q) if isinstance(q, str) else q
    if isinstance(q, C) and isinstance(q.v, str) and not (q.v.startswith(ch) if op == "expanduser" else ch in q.v):
        return [(s, p)]
    t = Term(op, (p,), STR)
    k = ops.eqkey(t, p)
    if k in s.facts:
        return [(s, p if s.facts[k] else t)]
    return [(s2, p if b else t) for s2, b in ops.fork_bool(s, k, ops.is_multi(p))]


@reg("os.path.expanduser", "os.path.expandvars")
def _expanduser(I, st, f, args, kw, node):
    leaf = f.name.rsplit(".", 1)[1]
    res = []
    for s, a in forced(I, st, args):
        res += expanded(s, _pathstr(a[0]), leaf, "~" if leaf == "expanduser" else "$")
    return res


@reg("os.path.splitext")
def _splitext(I, st, f, args, kw, node):
    import posixpath
    res = []
    for s, a in forced(I, st, args):
        p = a[0]
        if isinstance(p, C):
            x, y = posixpath.splitext(p.v)
            res.append((s, tup(C(x), C(y))))
        elif isinstance(p, Cat) and isinstance(p.parts[-1], str) and "." in p.parts[-1] and "/" not in p.parts[-1].rsplit(".", 1)[1]:
            h, e = p.parts[-1].rsplit(".", 1)
            res.append((s, tup(mkcat(list(p.parts[:-1]) + [h]), C("." + e))))
        else:
            res.append((s, tup(Term("stem", (p,), STR), Term("ext", (p,), STR))))
    return res


@reg("os.path.isabs")
def _isabs(I, st, f, args, kw, node):
    import ops
    res = []
    for s, a in forced(I, st, args):
        p = _pathstr(a[0])
        q = p.parts[0] if isinstance(p, Cat) else (p.v if isinstance(p, C) else p)
        if isinstance(q, str):
            res.append((s, B(q.startswith("/"))))
        elif isinstance(q, Sym) and "/" in q.nochars:
            res.append((s, FALSE))
        else:
            res += [(x, B(b)) for x, b in ops.fork_bool(s)]
    return res


def isdir(I, st, p):
    """-> [(st, bool)] recorded per path"""
    p = _pathstr(p)
    if p == C(""):
        return [(st, False)]
    if p in (C("."), C("/"), C("./"), C("/cwd"), C("/cwd/")):
        return [(st, True)]
    k = ("isdir", normpath(p))
    f = st.facts.get(k)
    if f is not None:
        return [(st, f)]
    a, b = st, st.fork()
    a.facts[k] = True
    b.facts[k] = False
    return [(a, True), (b, False)]


def normpath(p):
    if isinstance(p, C) and isinstance(p.v, str):
        v = p.v
        while v.startswith("./") and len(v) > 2:
            v = v[2:]
        if v.startswith("/cwd/"):
            v = v[5:]
        if len(v) > 1:
            v = v.rstrip("/")
        return C(v)
    if isinstance(p, Cat) and p.parts and isinstance(p.parts[0], str) and p.parts[0].startswith("/cwd/"):
        return mkcat([p.parts[0][5:]] + list(p.parts[1:]))
    return p


@reg("os.path.isdir", "os.path.exists", "os.path.isfile", "os.path.lexists", "os.path.islink", "os.access")
def _isdir(I, st, f, args, kw, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0]):
        p = _pathstr(v)
        if f.name in ("os.path.isdir", "os.path.exists"):
            if f.name.endswith("exists") and I.pathkind(p) == "file":
                res += [(x, B(b)) for x, b in ops.fork_bool(s, ("exists", p))] if ("exists", p) not in s.facts else [(s, B(s.facts[("exists", p)]))]
            else:
                res += [(x, B(b)) for x, b in isdir(I, s, p)]
        else:
            k = (f.name, p)
            if k in s.facts:
                res.append((s, B(s.facts[k])))
            else:
                res += [(x, B(b)) for x, b in ops.fork_bool(s, k)]
    return res


@reg("os.makedirs", "os.mkdir")
def _makedirs(I, st, f, args, kw, node):
    import ops
    res = []
    exist_ok = kw.get("exist_ok", args[2] if len(args) > 2 and f.name == "os.makedirs" else FALSE)
    for s, v in ops.force(I, st, args[0]):
        res += mkdirs(I, s, _pathstr(v), exist_ok, f.name == "os.makedirs", node)
    return res


def mkdirs(I, st, p, exist_ok, parents, node):
    if isinstance(p, C) and not isinstance(p.v, str):
        return I.implicit(st, "TypeError", node, "path")
    if p == C(""):
        return I.implicit(st, "FileNotFoundError", node, "makedirs('')")
    res = []
    for s, d in isdir(I, st, p):
        if d:
            if isinstance(exist_ok, C) and not exist_ok.v:
                res += I.implicit(s, "FileExistsError", node, "directory exists")
            else:
                res.append((s, NONE))
            continue
        if not parents:
            pp = dirname(I, s, p)
            outs = isdir(I, s, pp) if pp != C("") else [(s, True)]
            for s2, pd in outs:
                if not pd:
                    res += I.implicit(s2, "FileNotFoundError", node, "mkdir without parent")
                else:
                    s2.note_eff("makedirs", normpath(p))
                    s2.facts[("isdir", normpath(p))] = True
                    res.append((s2, NONE))
            continue
        s.note_eff("makedirs", normpath(p))
        s.facts[("isdir", normpath(p))] = True
        res.append((s, NONE))
    return res


@reg("open", "io.open", "codecs.open")
def _open(I, st, f, args, kw, node):
    import ops
    res = []
    mode = args[1] if len(args) > 1 else kw.get("mode", C("r"))
    for s, v in ops.force(I, st, args[0]):
        res += do_open(I, s, v, mode, node)
    return res


def do_open(I, st, v, mode, node):
    p = _pathstr(v)
    if isinstance(p, C) and not isinstance(p.v, str):
        return I.implicit(st, "TypeError", node, "open() path")
    m = mode.v if isinstance(mode, C) else "?"
    res = []
    if any(ch in m for ch in "wax+?"):
        d = dirname(I, st, p)
        outs = isdir(I, st, d) if d != C("") else [(st, True)]
        for s, ok in outs:
            if not ok:
                res += I.implicit(s, "FileNotFoundError", node, "directory of the output file does not exist")
                continue
            s.note_eff("open", normpath(p), m)
            o = s.get(I.disk)
            s.set(I.disk, o.with_(items=[e for e in o.items if "w" not in m or e[0] != normpath(p)]))
            res.append((s, I.alloc(s, node, Inst(Bi("file"), {"path": normpath(p), "mode": C(m)}), "file")))
        return res
    st.note_eff("read", normpath(p))
    if any(isinstance(q, Term) and q.op in ("expanduser", "expandvars") for q in (p.parts if isinstance(p, Cat) else [p])) and any(k != "open" for k, v, x in st.get(I.disk).items):
        # a name that was replaced by another one: the files there are, are those that were put there
        return I.implicit(st, "FileNotFoundError", node, "another file than the one that was asked for")
    return [(st, I.alloc(st, node, Inst(Bi("file"), {"path": normpath(p), "mode": C(m)}), "file"))]


@reg("pathlib.Path", "pathlib.PurePath", "pathlib.PosixPath", "pathlib.PurePosixPath")
def _path(I, st, f, args, kw, node):
    res = []
    for s, a in forced(I, st, args):
        r = _pathstr(a[0]) if a else C(".")
        for b in a[1:]:
            r = path_join(I, s, r, b)
        if r == C(""):
            r = C(".")
        res.append((s, Term("Path", (r,), frozenset(["path"]))))
    return res


@reg("contextlib.suppress")
def _suppress(I, st, f, args, kw, node):
    return [(st, Bi("suppress", None, tuple(args)))]


@reg("contextlib.nullcontext")
def _nullctx(I, st, f, args, kw, node):
    return [(st, Bi("nullcontext", None, tuple(args)))]


@reg("os.getenv", "os.environ.get")
def _getenv(I, st, f, args, kw, node):
    return nondet(I, st, f.name, node, frozenset(["str", "none"]))


# re -----------------------------------------------------------------
@reg("re.compile")
def _recompile(I, st, f, args, kw, node):
    return [(st, Bi("re.Pattern", None, args[0] if not isinstance(args[0], Bi) else args[0].extra))]


def sample(v, ch="7"):
    """host string standing for a symbolic text (digit symbols and the like), or None"""
    if isinstance(v, C):
        return v.v
    out = ""
    for p in (v.parts if isinstance(v, Cat) else [v]):
        if isinstance(p, str):
            out += p
        elif is_digits(p):
            out += ch
        else:
            return None
    return out


@reg("re.match", "re.fullmatch", "re.search", "re.findall", "re.sub", "re.split", "re.finditer")
def _recall(I, st, f, args, kw, node):
    import ops
    res = []
    what = f.name.split(".")[1]
    for s, a in forced(I, st, args):
        pat = a[0].extra if isinstance(a[0], Bi) else a[0]
        text = a[-1] if what != "sub" else a[2]
        if what in ("match", "fullmatch", "search", "findall", "finditer", "split"):
            text = a[1]
        if isinstance(text, C) and not isinstance(text.v, str):
            res += I.implicit(s, "TypeError", node, "expected string")
            continue
        if isinstance(pat, C) and isinstance(text, C) and (what != "sub" or isinstance(a[1], C)):
            if what == "sub":
                res.append((s, C(_re.sub(pat.v, a[1].v, text.v))))
            elif what in ("findall", "split", "finditer"):
                if what == "finditer":
                    segs = [("E", mkmatch(I, s, m, node, i), None) for i, m in enumerate(_re.finditer(pat.v, text.v))]
                    res.append((s, newlist(I, s, node, segs, "iter", "re")))
                else:
                    r = getattr(_re, what)(pat.v, text.v)
                    segs = [("E", C(x) if not isinstance(x, tuple) else tup(*[C(y) for y in x]), None) for x in r]
                    res.append((s, newlist(I, s, node, segs, "list", "re")))
            else:
                m = getattr(_re, what)(pat.v, text.v)
                res.append((s, NONE if m is None else mkmatch(I, s, m, node)))
            continue
        if isinstance(pat, C) and what in ("match", "fullmatch", "search"):
            t1, t2 = (sample(text, "7"), sample(text, "1234")) if isinstance(text, (Sym, Cat)) else (None, None)
            if t1 is not None:
                m1, m2 = getattr(_re, what)(pat.v, t1), getattr(_re, what)(pat.v, t2)
                if (m1 is None) == (m2 is None):
                    if m1 is None:
                        res.append((s, NONE))
                    else:
                        n = m1.re.groups
                        gs = tup(*[symgroup(I, s, pat.v, what, text, i) for i in range(n + 1)])
                        names = tup(*[tup(C(k), C(i)) for k, i in m1.re.groupindex.items()])
                        res.append((s, I.alloc(s, node, Inst(Bi("re.Match"), {"groups": gs, "names": names}), "match")))
                    continue
        if isinstance(text, (Sym, Cat)) and needs_char(pat, text):
            if what == "findall":
                res.append((s, newlist(I, s, node, (), "list", "re")))
            elif what == "finditer":
                res.append((s, newlist(I, s, node, (), "iter", "re")))
            elif what == "sub":
                res.append((s, text))
            elif what == "split":
                res.append((s, newlist(I, s, node, (("E", text, None),), "list", "re")))
            else:
                res.append((s, NONE))
            continue
        I.note("regular expression on an unknown string", node)
        if what == "findall" or what == "split":
            res.append((s, newlist(I, s, node, (("R", Top(STR), None),), "list", "re")))
        elif what == "finditer":
            res.append((s, newlist(I, s, node, (("R", Top(None), None),), "iter", "re")))
        elif what == "sub":
            res.append((s, Top(STR)))
        else:
            s2 = s.ifork("regex")
            res.append((s2, NONE))
            res.append((s, I.alloc(s, node, Inst(Bi("re.Match"), {"groups": Top(), "names": Tup(())}), "match")))
    return res


def symgroup(I, st, pat, what, text, i):
    """text of group i when it coincides with whole parts of the symbolic text"""
    parts = text.parts if isinstance(text, Cat) else (text,)
    for filler in ("7", "42"):
        pass
    import itertools
    syms = [p for p in parts if not isinstance(p, str)]
    vals = ["1%d3" % (k + 4) for k in range(len(syms))]
    it = iter(vals)
    spans, pos, t = [], 0, ""
    for p in parts:
        w = p if isinstance(p, str) else next(it)
        spans.append((pos, pos + len(w), p))
        t += w
        pos += len(w)
    m = getattr(_re, what)(pat, t)
    if m is None or m.span(i) == (-1, -1):
        return NONE
    lo, hi = m.span(i)
    out = []
    for a, b, p in spans:
        if b <= lo or a >= hi:
            continue
        if isinstance(p, str):
            out.append(p[max(lo - a, 0): min(hi, b) - a])
        elif a >= lo and b <= hi:
            out.append(p)
        else:
            return Top(STR)
    return mkcat(out)


def needs_char(pat, text):
    """no match possible: every match contains a literal character the text cannot contain"""
    if not isinstance(pat, C):
        return False
    try:
        try:
            import re._parser as sp
        except ImportError:
            import sre_parse as sp
        tree = sp.parse(pat.v)
    except Exception:
        return False
    lits = [chr(v) for op, v in tree if str(op) == "LITERAL"]
    parts = text.parts if isinstance(text, Cat) else (text,)
    for ch in lits:
        if all((ch not in p) if isinstance(p, str) else (isinstance(p, Sym) and ch in p.nochars) for p in parts):
            return True
    return False


def mkmatch(I, st, m, node, i=0):
    gs = tup(*[C(m.group(k)) for k in range(m.re.groups + 1)])
    names = tup(*[tup(C(k), C(i)) for k, i in m.re.groupindex.items()])
    return I.alloc(st, node, Inst(Bi("re.Match"), {"groups": gs, "names": names}), ("match", i))


# ------------------------------------------------------------------ methods
def method(I, st, p, m, args, kw, node):
    import ops
    if p in ("list", "deque"):
        return list_method(I, st, m, args, kw, node)
    if p == "dict":
        return dict_method(I, st, m, args, kw, node)
    if p in ("set", "frozenset"):
        return set_method(I, st, p, m, args, kw, node)
    if p == "str":
        res = []
        for s, a in forced(I, st, args):
            res += str_method(I, s, m, a, kw, node)
        return res
    if p == "iter":
        if m == "__next__":
            return _next(I, st, None, args, kw, node)
        if m == "__iter__":
            return [(st, args[0])]
        return [(st, NONE)]
    if p == "object":
        return object_method(I, st, m, args, kw, node)
    if p == "exc":
        if m == "__init__":
            if isinstance(args[0], Ref) and isinstance(st.get(args[0].a), Inst):
                o = st.get(args[0].a)
                st.set(args[0].a, o.with_(attrs=dict(o.attrs, args=tup(*args[1:]))))
            return [(st, NONE)]
        return [(st, Top(STR))]
    if p == "tuple":
        t = args[0]
        res = []
        for s, v in ops.force(I, st, args[1]):
            if m == "index":
                for i, (k, x, _) in enumerate(t.segs):
                    if ops.eqv(I, s, x, v) is True:
                        res.append((s, C(i)))
                        break
                else:
                    res.append((s, Top(INT)))
            else:
                res.append((s, Top(INT)))
        return res
    if p == "file":
        return file_method(I, st, m, args, kw, node)
    if p == "match":
        return match_method(I, st, m, args, kw, node)
    if p == "path":
        return path_method(I, st, m, args, kw, node)
    if p == "namedtuple":
        if m == "_make":
            res = []
            for s, g in seqs(I, st, args[1], node):
                res += [(s, g)] if isinstance(g, Raise) else record_new(I, s, args[0], [("E", x) for _, x, _ in g], [], node)
            return res
        o = st.get(args[0].a)
        if m == "_replace":
            at = dict(o.attrs)
            at.update(kw)
            return [(st, I.alloc(st, node, o.with_(attrs=at), "replace"))]
        if m == "_asdict":
            return [(st, I.alloc(st, node, DictO([(C(k), o.attrs[k], "must") for k in o.cls.fields]), "asdict"))]
    if p in ("float", "int", "bool", "bytes", "NoneType"):
        if isinstance(args[0], C) and allc(args):
            try:
                r = getattr(args[0].v, m)(*[a.v for a in args[1:]])
                return [(st, C(r))]
            except Exception as e:
                return I.implicit(st, type(e).__name__, node, str(e))
        return [(st, Term("num." + m, args) if all(isinstance(a, (C, Sym, Term, Poly)) for a in args) else Top())]
    return topnote(I, st, p + "." + m, node)


def object_method(I, st, m, args, kw, node):
    import ops
    if m == "__new__":
        cls = args[0]
        if not isinstance(cls, Cls):
            return topnote(I, st, "object.__new__", node)
        return [(st, I.alloc(st, node if node is not None else "ext", Inst(cls, {}), ("new", cls.qual)))]
    if m == "__init__" or m == "__init_subclass__":
        return [(st, NONE)]
    if m == "__setattr__":
        res = []
        for s, a in forced(I, st, args[:2]):
            if isinstance(a[1], C):
                res += [(x, r if isinstance(r, Raise) else NONE) for x, r in ops.raw_setattr(I, s, a[0], a[1].v, args[2], node)]
            else:
                I.note("setattr of unknown name", node)
                res.append((s, NONE))
        return res
    if m == "__getattribute__":
        res = []
        for s, a in forced(I, st, args[:2]):
            res += attr_by_name(I, s, a[0], a[1], node)
        return res
    if m == "__delattr__":
        return [(s, r if isinstance(r, Raise) else NONE) for s, r in ops.delattr_(I, st, args[0], args[1].v, node)]
    if m in ("__eq__", "__ne__"):
        res = []
        for s, r in ops.identity(I, st, args[0], args[1], node):
            res.append((s, r if isinstance(r, Raise) else B(r == (m == "__eq__"))))
        return res
    if m == "__hash__":
        return [(st, Term("idhash", (args[0],), INT))]
    if m in ("__str__", "__repr__", "__format__"):
        return [(st, Top(STR))]
    return topnote(I, st, "object." + m, node)


def list_method(I, st, m, args, kw, node):
    import ops
    ref = args[0]
    if not isinstance(ref, Ref):
        return topnote(I, st, "list." + m, node)
    o = st.get(ref.a)
    if m == "append":
        return ops.list_append(I, st, ref, args[1], node)
    if m in ("extend", "__iadd__"):
        return [(s, r if isinstance(r, Raise) else (ref if m == "__iadd__" else NONE)) for s, r in ops.list_extend(I, st, ref, args[1], node)]
    if m == "appendleft":
        return ops.list_insert(I, st, ref, C(0), args[1], node)
    if m == "insert":
        return [r for s, i in ops.force(I, st, args[1]) for r in ops.list_insert(I, s, ref, i, args[2], node)]
    if m in ("pop", "popleft"):
        i = args[1] if len(args) > 1 else C(0 if m == "popleft" else -1)
        return [r for s, k in ops.force(I, st, i) for r in ops.list_pop(I, s, ref, k, node)]
    if m == "remove":
        return [r for s, v in ops.force(I, st, args[1]) for r in list_remove(I, s, ref, v, node)]
    if m == "clear":
        if o.summ:
            return [(st, NONE)]
        st.set(ref.a, o.with_(segs=(), shape=None))
        return [(st, NONE)]
    if m == "copy":
        return [(st, newlist(I, st, node, o.segs, "list", "copy", o.unord))]
    if m == "reverse":
        st.set(ref.a, o.with_(segs=tuple(reversed(o.segs))))
        return [(st, NONE)]
    if m == "sort":
        res = []
        for s, segs in sort_with(I, st, o.segs, kw, node, o.unord):
            if isinstance(segs, Raise):
                res.append((s, segs))
            else:
                s.set(ref.a, s.get(ref.a).with_(segs=segs, unord=False))
                res.append((s, NONE))
        return res
    if m == "index":
        res = []
        for s, v in ops.force(I, st, args[1]):
            res += list_index(I, s, ref, v, node)
        return res
    if m == "count":
        if all(k == "E" for k, _, _ in o.segs):
            rs = [ops.eqv(I, st, x, args[1]) for _, x, _ in o.segs]
            if None not in rs:
                return [(st, C(sum(1 for r in rs if r)))]
        elif all(ops.eqv(I, st, x, args[1]) is False for _, x, _ in o.segs):
            return [(st, C(0))]
        return [(st, Top(INT))]
    if m == "__len__":
        return len1(I, st, ref, node)
    if m == "__contains__":
        return [(s, r if isinstance(r, Raise) else B(r)) for s, r in ops.contains(I, st, ref, args[1], node)]
    if m == "__getitem__":
        return [r for s, a in forced(I, st, args[1:]) for r in ops.getitem(I, s, ref, a[0], node)]
    if m == "__setitem__":
        return [(s2, r if isinstance(r, Raise) else NONE) for s, a in forced(I, st, args[1:2]) for s2, r in ops.setitem(I, s, ref, a[0], args[2], node)]
    if m == "__iter__":
        return tolist(I, st, ref, node, "iter", "it")
    if m in ("__eq__", "__ne__"):
        return [(s, r if isinstance(r, Raise) else B(r == (m == "__eq__"))) for s, r in ops.eqfork(I, st, ref, args[1], node)]
    return topnote(I, st, "list." + m, node)


def list_index(I, st, ref, v, node):
    import ops
    o = st.get(ref.a)
    res = []
    cur = [st]
    for p, (k, x, c) in enumerate(o.segs):
        nx = []
        for s in cur:
            r = ops.eqv_user(I, s, x, v) if not isinstance(x, (Ch, Un)) else None
            if r is False:
                nx.append(s)
                continue
            pf = ops.prefix(o.segs, p)
            if pf is None:
                i = Top(INT)
            elif k == "R":
                i = Idx(pf, c) if c is not None else Top(INT)
            else:
                i = pf
            if k == "E" and r is True:
                res.append((s, i))
            elif k == "E" and not is_multi(x) and not is_multi(v):
                for s2, e in ops.eqfork(I, s, x, v, node):
                    if isinstance(e, Raise):
                        res.append((s2, e))
                    elif e:
                        res.append((s2, i))
                    else:
                        nx.append(s2)
            else:
                nx.append(s)
                res.append((s.ifork("index"), i))
        cur = nx
    for s in cur:
        if any(k != "E" and ops.eqv(I, s, x, v) is not False for k, x, _ in o.segs) and not I.maybe(s, "ValueError"):
            continue
        res += I.implicit(s, "ValueError", node, "not in list")
    return I.merge_vals(res)


def list_remove(I, st, ref, v, node):
    import ops
    o = st.get(ref.a)
    res = []
    cur = [st]
    hit_soft = False
    for p, (k, x, c) in enumerate(o.segs):
        nx = []
        for s in cur:
            r = ops.eqv_user(I, s, x, v) if not isinstance(x, (Ch, Un)) else None
            if r is False:
                nx.append(s)
            elif k == "E" and (r is True or not is_multi(x) and not is_multi(v)):
                for s2, e in ([(s, True)] if r is True else ops.eqfork(I, s, x, v, node)):
                    if isinstance(e, Raise):
                        res.append((s2, e))
                    elif e:
                        if not o.summ:
                            s2.set(ref.a, o.with_(segs=o.segs[:p] + o.segs[p + 1:], shape=None))
                        res.append((s2, NONE))
                    else:
                        nx.append(s2)
            else:
                s2 = s.ifork("remove")
                if k == "E":
                    s2.set(ref.a, o.with_(segs=o.segs[:p] + (("M", x, None),) + o.segs[p + 1:], shape=None))
                elif k == "R":
                    s2.set(ref.a, o.with_(segs=o.segs[:p] + ((k, x, None),) + o.segs[p + 1:], shape=None))
                res.append((s2, NONE))
                hit_soft = True
                nx.append(s)
        cur = nx
    for s in cur:
        if hit_soft and not I.maybe(s, "ValueError"):
            continue
        res += I.implicit(s, "ValueError", node, "list.remove(x): x not in list")
    return I.merge_vals(res)


def dict_method(I, st, m, args, kw, node):
    import ops
    ref = args[0]
    if not isinstance(ref, (Ref, InstDict)):
        if isinstance(ref, Bi) and m == "fromkeys":
            pass
        elif m != "fromkeys":
            return topnote(I, st, "dict." + m, node)
    if m in ("keys", "values", "items"):
        return [(st, Bi("view." + m, ref))]
    if m == "get":
        res = []
        d = args[2] if len(args) > 2 else kw.get("default", NONE)
        for s, k in ops.force(I, st, args[1]):
            res += ops.dict_get(I, s, ref, k, node, d)
        return res
    if m == "setdefault":
        d = args[2] if len(args) > 2 else NONE
        res = []
        for s, k in ops.force(I, st, args[1]):
            for s2, has in ops.contains1(I, s, ref, k, node):
                if isinstance(has, Raise):
                    res.append((s2, has))
                elif has:
                    res += ops.dict_get(I, s2, ref, k, node, None)
                else:
                    for s3, r in ops.setitem(I, s2, ref, k, d, node):
                        res.append((s3, r if isinstance(r, Raise) else d))
        return res
    if m == "pop":
        res = []
        d = args[2] if len(args) > 2 else None
        for s, k in ops.force(I, st, args[1]):
            res += ops.dict_pop(I, s, ref, k, node, d)
        return res
    if m == "update":
        cur = [(st, None)]
        if len(args) > 1:
            cur = ops.dict_update(I, st, ref, args[1], node)
        res = []
        for s, r in cur:
            if isinstance(r, Raise):
                res.append((s, r))
                continue
            for k, v in kw.items():
                ops.setitem(I, s, ref, C(k), v, node)
            res.append((s, NONE))
        return res
    if m == "clear":
        if isinstance(ref, Ref):
            o = st.get(ref.a)
            if not o.summ:
                st.set(ref.a, o.with_(items=()))
        else:
            st.set(ref.a, st.get(ref.a).with_(attrs={}))
        return [(st, NONE)]
    if m == "copy":
        if isinstance(ref, InstDict):
            o = st.get(ref.a)
            return [(st, I.alloc(st, node, DictO([(C(k), v, "must") for k, v in o.attrs.items()]), "copy"))]
        o = st.get(ref.a)
        return [(st, I.alloc(st, node, o.with_(summ=False), "copy"))]
    if m == "popitem":
        o = st.get(ref.a)
        if o.items and o.items[-1][2] == "must" and not o.summ:
            k, v, _ = o.items[-1]
            st.set(ref.a, o.with_(items=o.items[:-1]))
            return [(st, tup(k, v))]
        return [(st, tup(mkun([k for k, _, _ in o.items]), mkun([v for _, v, _ in o.items])))] if o.items else I.implicit(st, "KeyError", node, "popitem")
    if m == "fromkeys":
        its = args[0] if not (isinstance(args[0], Bi) and args[0].name == "dict") else args[1]
        rest = args[1:] if its is args[0] else args[2:]
        r = I.alloc(st, node, DictO(()), "fromkeys")
        st.tmps = st.tmps + (r,)
        norm, exc = loop(I, st, its, node, lambda s, e: [x for s1, k in ops.force(I, s, e) for x in ops.setitem(I, s1, r, k, rest[0] if rest else NONE, node)])
        for s in norm:
            s.tmps = s.tmps[:-1]
        return [(s, r) for s in norm] + exc
    if m == "__contains__":
        return [(s, r if isinstance(r, Raise) else B(r)) for s, r in ops.contains(I, st, ref, args[1], node)]
    if m == "__getitem__":
        return [r for s, k in ops.force(I, st, args[1]) for r in ops.getitem(I, s, ref, k, node)]
    if m == "__setitem__":
        return [(s2, r if isinstance(r, Raise) else NONE) for s, k in ops.force(I, st, args[1]) for s2, r in ops.setitem(I, s, ref, k, args[2], node)]
    if m == "__delitem__":
        return [(s2, r if isinstance(r, Raise) else NONE) for s, k in ops.force(I, st, args[1]) for s2, r in ops.delitem(I, s, ref, k, node)]
    if m == "__len__":
        return len1(I, st, ref, node)
    if m == "__iter__":
        return tolist(I, st, ref, node, "iter", "it")
    if m in ("__eq__", "__ne__"):
        return [(s, r if isinstance(r, Raise) else B(r == (m == "__eq__"))) for s, r in ops.eqfork(I, st, ref, args[1], node)]
    if m == "move_to_end":
        o = st.get(ref.a)
        if not o.summ:
            hit = [i for i in o.items if i[0] == args[1]]
            st.set(ref.a, o.with_(items=[i for i in o.items if i[0] != args[1]] + hit))
        return [(st, NONE)]
    return topnote(I, st, "dict." + m, node)


SETOP = {"union": ast.BitOr, "intersection": ast.BitAnd, "difference": ast.Sub, "symmetric_difference": ast.BitXor,
         "__or__": ast.BitOr, "__and__": ast.BitAnd, "__sub__": ast.Sub, "__xor__": ast.BitXor}
SETUPD = {"update": ast.BitOr, "intersection_update": ast.BitAnd, "difference_update": ast.Sub, "symmetric_difference_update": ast.BitXor}


def as_setref(I, st, v, node):
    import ops
    res = []
    for s, x in ops.force(I, st, v):
        if ops.as_set(s, x) is not None:
            res.append((s, x))
            continue
        for s2, g in seqs(I, s, x, node):
            if isinstance(g, Raise):
                res.append((s2, g))
            else:
                res += ops.set_from_segs(I, s2, g, node, False, "asset")
    return res


def set_method(I, st, p, m, args, kw, node):
    import ops
    ref = args[0]
    if m in SETOP:
        cur = [(st, ref)]
        fz = isinstance(ref, Ref) and isinstance(st.get(ref.a), SetO) and st.get(ref.a).frozen
        if len(args) == 1:
            so = ops.as_set(st, ref)
            return [(st, I.alloc(st, node, SetO(so.items, fz), "setop"))]
        for n, a in enumerate(args[1:]):
            nx = []
            for s, r in cur:
                if isinstance(r, Raise):
                    nx.append((s, r))
                    continue
                s.tmps = s.tmps + (r,)
                for s2, b in as_setref(I, s, a, node):
                    s2.tmps = s2.tmps[:-1]
                    if isinstance(b, Raise):
                        nx.append((s2, b))
                    else:
                        nx += ops.set_op(I, s2, SETOP[m], r, ops.as_set(s2, r), b, ops.as_set(s2, b), node)
            cur = nx
        return cur
    if m in SETUPD:
        cur = [(st, NONE)]
        for a in args[1:]:
            nx = []
            for s, r in cur:
                for s2, b in as_setref(I, s, a, node):
                    if isinstance(b, Raise):
                        nx.append((s2, b))
                        continue
                    for s3, x in ops.inplace(I, s2, SETUPD[m](), ref, b, node):
                        nx.append((s3, x if isinstance(x, Raise) else NONE))
            cur = nx
        return cur
    if m == "add":
        return [(s2, r if isinstance(r, Raise) else NONE) for s, v in ops.force(I, st, args[1]) for s2, r in ops.set_add(I, s, ref, v, node)]
    if m in ("remove", "discard"):
        res = []
        for s, v in ops.force(I, st, args[1]):
            res += set_remove(I, s, ref, v, node, m == "discard")
        return res
    if m == "copy":
        o = st.get(ref.a)
        return [(st, I.alloc(st, node, SetO(o.items, o.frozen), "copy"))]
    if m == "clear":
        o = st.get(ref.a)
        if not o.summ:
            st.set(ref.a, o.with_(items=()))
        return [(st, NONE)]
    if m == "pop":
        o = st.get(ref.a)
        if not o.items:
            return I.implicit(st, "KeyError", node, "pop from an empty set")
        I.nondet.add(("set.pop", I.where(node)))
        res = []
        for k, pr in o.items:
            s = st.ifork("pop") if len(o.items) > 1 else st.fork()
            if not o.summ and pr not in STARS:
                s.set(ref.a, o.with_(items=[i for i in o.items if i[0] != k]))
            res.append((s, k))
        return res
    if m in ("issubset", "issuperset", "__le__", "__ge__", "__lt__", "__gt__"):
        opc = {"issubset": ast.LtE, "issuperset": ast.GtE, "__le__": ast.LtE, "__ge__": ast.GtE, "__lt__": ast.Lt, "__gt__": ast.Gt}[m]
        res = []
        for s, b in as_setref(I, st, args[1], node):
            for s1, a in as_setref(I, s, ref, node):
                if isinstance(a, Bi):
                    so = ops.as_set(s1, a)
                    a = I.alloc(s1, node, so, "vs")
                if isinstance(b, Bi):
                    so = ops.as_set(s1, b)
                    b = I.alloc(s1, node, so, "vs2")
                res += [(s2, B(r)) for s2, r in ops.set_cmp(I, s1, opc, a, b)]
        return res
    if m == "isdisjoint":
        res = []
        for s, b in as_setref(I, st, args[1], node):
            sa, sb = ops.as_set(s, ref), ops.as_set(s, b)
            rs = [(ops.eqv_user(I, s, k, kk), pa, pb) for k, pa in sa.items for kk, pb in sb.items]
            if all(r is False for r, _, _ in rs):
                res.append((s, TRUE))
            elif any(r is True and pa == pb == "must" for r, pa, pb in rs):
                res.append((s, FALSE))
            else:
                res += [(x, B(t)) for x, t in ops.fork_bool(s)]
        return res
    if m == "__contains__":
        return [(s, r if isinstance(r, Raise) else B(r)) for s, r in ops.contains(I, st, ref, args[1], node)]
    if m == "__len__":
        return len1(I, st, ref, node)
    if m == "__iter__":
        return tolist(I, st, ref, node, "iter", "it")
    if m in ("mapping",):
        return [(st, ref)]
    return topnote(I, st, p + "." + m, node)


def set_remove(I, st, ref, v, node, discard):
    import ops
    o = st.get(ref.a)
    res = []
    cur = [st]
    soft = False
    for k, p in o.items:
        nx = []
        for s in cur:
            r = ops.eqv_user(I, s, k, v)
            if p == "all" and r is not False:
                s.set(ref.a, s.get(ref.a).with_(items=[(x, "star" if x == k else z) for x, z in s.get(ref.a).items]))
            if r is False:
                nx.append(s)
            elif p == "all" and gen(v) == k:
                res.append((s, NONE))
            elif p in ("must", "may") and (r is True or not is_multi(k) and not is_multi(v)):
                for s2, e in ([(s, True)] if r is True else ops.eqfork(I, s, k, v, node)):
                    if isinstance(e, Raise):
                        res.append((s2, e))
                    elif e:
                        if p == "may" and not discard and I.maybe(s2, "KeyError"):
                            res += I.implicit(s2.ifork("remove"), "KeyError", node, "set.remove")
                        if not o.summ:
                            s2.set(ref.a, s2.get(ref.a).with_(items=[i for i in o.items if i[0] != k]))
                        res.append((s2, NONE))
                    else:
                        nx.append(s2)
            else:
                if is_multi(v) and p == "must":
                    s2 = s.fork()
                    s2.set(ref.a, o.with_(items=[(a, "may" if a == k else b) for a, b in o.items]))
                    res.append((s2, NONE))
                soft = True
                nx.append(s)
        cur = nx
    for s in cur:
        if discard or (soft and not I.maybe(s, "KeyError")):
            res.append((s, NONE))
        else:
            res += I.implicit(s, "KeyError", node, "set.remove")
    return I.merge_vals(res)


# strings
def parts_of(v):
    if isinstance(v, Cat):
        return list(v.parts)
    if isinstance(v, C):
        return [v.v] if v.v else []
    return [v]


def part_free(p, chars):
    """p (a symbolic part) cannot contain any of chars"""
    if isinstance(p, Term) and p.op in ("str", "int"):
        return all(ch not in "0123456789-.einfa+" for ch in chars)
    return isinstance(p, Sym) and all(ch in p.nochars for ch in chars)


def starts(I, st, v, c, end=False):
    """-> True/False/None"""
    ps = parts_of(v)
    if end:
        ps = list(reversed(ps))
    if c == "":
        return True
    acc = ""
    for p in ps:
        if isinstance(p, str):
            acc = p + acc if end else acc + p
            if len(acc) >= len(c):
                return acc.endswith(c) if end else acc.startswith(c)
            if end and not c.endswith(acc) or not end and not c.startswith(acc):
                return False
        else:
            rem = c[: len(c) - len(acc)] if end else c[len(acc):]
            ch = rem[-1] if end else rem[0]
            if part_free(p, ch) and (isinstance(p, Sym) and p.truth or isinstance(p, Term)):
                return False
            return None
    return False


def str_method(I, st, m, a, kw, node):
    import ops
    v = a[0]
    rest = a[1:]
    if isinstance(v, Ref) or isinstance(v, C) and not isinstance(v.v, str):
        return I.implicit(st, "TypeError", node, "str method on non-string")
    if isinstance(v, C) and allc(rest) and all(isinstance(x, C) for x in kw.values()) and m not in ("join", "split", "rsplit", "partition", "rpartition", "splitlines"):
        try:
            r = getattr(v.v, m)(*[x.v for x in rest], **{k: x.v for k, x in kw.items()})
            return [(st, C(r))]
        except Exception as e:
            return I.implicit(st, type(e).__name__, node, str(e))
    if m == "format":
        return str_format(I, st, v, rest, kw, node)
    if m == "join":
        res = []
        for s, g in seqs(I, st, rest[0], node):
            if isinstance(g, Raise):
                res.append((s, g))
            elif all(k == "E" for k, _, _ in g):
                bad = [x for _, x, _ in g if ops.types_of(s, x) is not None and "str" not in ops.types_of(s, x)]
                if bad:
                    res += I.implicit(s, "TypeError", node, "join of non-strings")
                    continue
                out = []
                for i, (_, x, _) in enumerate(g):
                    if i:
                        out.append(v)
                    out.append(x)
                for s2, xs in forced(I, s, out):
                    res.append((s2, mkcat(xs) if not any(isinstance(x, Top) for x in xs) else Top(STR)))
            else:
                res.append((s, Top(STR)))
        return res
    if m in ("startswith", "endswith"):
        cs = [x for _, x, _ in rest[0].segs] if isinstance(rest[0], Tup) else [rest[0]]
        rs = []
        for c in cs:
            if isinstance(c, C):
                rs.append(starts(I, st, v, c.v, m == "endswith"))
            elif ops.streq(I, st, v, c) is True:
                rs.append(True)
            else:
                # common symbolic suffix
                _, pa, pb = ops.strip_cat(v, c)
                rs.append(True if pb == [] and pa is not None and m == "endswith" and v != c and ops_suffix(v, c, m) else None)
        if True in rs:
            return [(st, TRUE)]
        if all(r is False for r in rs):
            return [(st, FALSE)]
        k = (m, v, rest[0])
        if k in st.facts:
            return [(st, B(st.facts[k]))]
        return [(s, B(b)) for s, b in ops.fork_bool(st, k, is_multi(v) or is_multi(rest[0]))]
    if m in ("removesuffix", "removeprefix"):
        c = rest[0]
        if isinstance(c, C):
            r = starts(I, st, v, c.v, m == "removesuffix")
            if r is True:
                n = len(c.v)
                return [(st, ops.str_slice(I, st, v, [NONE, C(-n), NONE]) if m == "removesuffix" else ops.str_slice(I, st, v, [C(n), NONE, NONE]))] if n else [(st, v)]
            if r is False:
                return [(st, v)]
        elif isinstance(c, Cat) or isinstance(c, Sym):
            ps, cs = parts_of(v), parts_of(c)
            if m == "removesuffix" and ps[-len(cs):] == cs:
                return [(st, mkcat(ps[:-len(cs)]))]
            if m == "removeprefix" and ps[:len(cs)] == cs:
                return [(st, mkcat(ps[len(cs):]))]
        return [(st, Term("str." + m, a, STR) if scal(a) else Top(STR))]
    if m == "replace":
        if isinstance(rest[0], C) and isinstance(rest[1], C) and len(rest) == 2:
            pat = rest[0].v
            ps = parts_of(v)
            if pat and all(isinstance(p, str) or part_free(p, pat[0]) and part_free(p, pat[-1]) for p in ps):
                return [(st, mkcat([p.replace(pat, rest[1].v) if isinstance(p, str) else p for p in ps]))]
            if pat and all(isinstance(p, str) or part_free(p, pat[0]) for p in ps) and not any(
                    isinstance(p, str) and i + 1 < len(ps) and any(p.endswith(pat[:n]) for n in range(1, len(pat))) for i, p in enumerate(ps)):
                # every occurrence starts in a constant part and cannot reach beyond it
                return [(st, mkcat([p.replace(pat, rest[1].v) if isinstance(p, str) else p for p in ps]))]
        return [(st, Term("str.replace", a, STR) if scal(a) else Top(STR))]
    if m in ("split", "rsplit", "partition", "rpartition"):
        return str_split(I, st, m, v, rest, kw, node)
    if m in ("strip", "lstrip", "rstrip"):
        ps = parts_of(v)
        chars = rest[0].v if rest and isinstance(rest[0], C) else " \t\n\r"
        ok = bool(ps)
        if ok and m in ("strip", "lstrip"):
            while ps and isinstance(ps[0], str):
                ps[0] = ps[0].lstrip(chars)
                if ps[0]:
                    break
                ps.pop(0)
            if ps and not isinstance(ps[0], str):
                ok = part_free(ps[0], chars)
        if ok and m in ("strip", "rstrip"):
            while ps and isinstance(ps[-1], str):
                ps[-1] = ps[-1].rstrip(chars)
                if ps[-1]:
                    break
                ps.pop()
            if ps and not isinstance(ps[-1], str):
                ok = part_free(ps[-1], chars)
        if ok:
            return [(st, mkcat(ps))]
        return [(st, Term("str." + m, a, STR) if scal(a) else Top(STR))]
    if m in ("isdigit", "isdecimal", "isnumeric"):
        if is_digits(v):
            return [(st, TRUE)]
    if m in ("find", "index", "rfind", "rindex", "count"):
        if isinstance(rest[0], C) and all((rest[0].v not in p) if isinstance(p, str) else part_free(p, rest[0].v[:1]) for p in parts_of(v)) and rest[0].v:
            if m in ("find", "rfind"):
                return [(st, C(-1))]
            if m == "count":
                return [(st, C(0))]
            return I.implicit(st, "ValueError", node, "substring not found")
        if m in ("rfind", "rindex") and isinstance(rest[0], C):
            ps = parts_of(v)
            for i in range(len(ps) - 1, -1, -1):
                if isinstance(ps[i], str) and rest[0].v in ps[i]:
                    pre = mkcat(ps[:i] + [ps[i][: ps[i].rindex(rest[0].v)]])
                    return [(st, ops.strlen(I, st, pre))]
                if not isinstance(ps[i], str) and not part_free(ps[i], rest[0].v[:1]):
                    break
        return [(st, Term("str." + m, a, INT) if scal(a) else Top(INT))]
    if m.startswith("is"):
        k = (m, v)
        if k in st.facts:
            return [(st, B(st.facts[k]))]
        return [(s, B(b)) for s, b in ops.fork_bool(st, k, is_multi(v))]
    if m in ("lower", "upper", "casefold", "title", "capitalize", "swapcase", "zfill", "ljust", "rjust", "center", "encode", "expandtabs", "translate"):
        return [(st, Term("str." + m, a, STR) if scal(a) else Top(STR))]
    if m == "__len__":
        return len1(I, st, v, node)
    if m == "__contains__":
        return [(s, r if isinstance(r, Raise) else B(r)) for s, r in ops.contains(I, st, v, rest[0], node)]
    if m in ("__eq__", "__ne__"):
        return [(s, r if isinstance(r, Raise) else B(r == (m == "__eq__"))) for s, r in ops.eqfork(I, st, v, rest[0], node)]
    if m == "__hash__":
        return [(st, Term("hash", (v,), INT))]
    return topnote(I, st, "str." + m, node)


def ops_suffix(v, c, m):
    ps, cs = parts_of(v), parts_of(c)
    return ps[-len(cs):] == cs if m == "endswith" else ps[:len(cs)] == cs


def scal(a):
    return all(isinstance(x, (C, Sym, Cat, Term, Poly)) for x in a)


def str_split(I, st, m, v, rest, kw, node):
    sep = kw.get("sep", rest[0] if rest else NONE)
    mx = kw.get("maxsplit", rest[1] if len(rest) > 1 else C(-1))
    if isinstance(v, C) and isinstance(sep, C) and isinstance(mx, C):
        try:
            r = getattr(v.v, m)(sep.v) if "partition" in m else getattr(v.v, m)(sep.v, mx.v)
        except Exception as e:
            return I.implicit(st, type(e).__name__, node, str(e))
        xs = [C(x) for x in r]
        return [(st, tup(*xs) if "partition" in m else newlist(I, st, node, [("E", x, None) for x in xs], "list", "split"))]
    out = None
    if isinstance(sep, C) and isinstance(sep.v, str) and sep.v and isinstance(mx, C):
        ps = parts_of(v)
        n = 1 if "partition" in m else mx.v
        if n < 0 and all(isinstance(p, str) or part_free(p, sep.v[0]) for p in ps):
            out = [[]]
            for p in ps:
                if isinstance(p, str):
                    q = p.split(sep.v)
                    out[-1].append(q[0])
                    out += [[x] for x in q[1:]]
                else:
                    out[-1].append(p)
        elif n >= 1:
            right = m in ("rsplit", "rpartition")
            cur = list(reversed(ps)) if right else list(ps)
            out, buf, k = [], [], 0
            ok = True
            while cur:
                p = cur.pop(0)
                if k == n:
                    buf = ([p] + buf) if right else (buf + [p])
                    continue
                if isinstance(p, str):
                    if sep.v in p:
                        x, y = p.rsplit(sep.v, 1) if right else p.split(sep.v, 1)
                        if right:
                            out.insert(0, [y] + buf)
                            if x:
                                cur.insert(0, x)
                        else:
                            out.append(buf + [x])
                            if y:
                                cur.insert(0, y)
                        buf = []
                        k += 1
                        continue
                    buf = ([p] + buf) if right else (buf + [p])
                elif part_free(p, sep.v[0]):
                    buf = ([p] + buf) if right else (buf + [p])
                else:
                    ok = False
                    break
            if ok:
                if right:
                    out.insert(0, buf)
                else:
                    out.append(buf)
                if "partition" in m:
                    if len(out) == 1:
                        e = [[], []]
                        out = (e + out) if right else (out + e)
                    else:
                        out = [out[0], [sep.v], out[1]]
            else:
                out = None
    if out is not None:
        xs = [mkcat(x) for x in out]
        return [(st, tup(*xs) if "partition" in m else newlist(I, st, node, [("E", x, None) for x in xs], "list", "split"))]
    if "partition" in m:
        ts = [Term("str.%s%d" % (m, i), (v, sep), STR) if scal([v, sep]) else Top(STR) for i in range(3)]
        return [(st, tup(*ts))]
    I.note("split of an unknown string", node)
    if m == "rsplit" and mx == C(1) and scal([v, sep]):
        # either no separator or exactly two parts
        s2 = st.ifork("split")
        r2 = newlist(I, s2, node, [("E", v, None)], "list", "split")
        r1 = newlist(I, st, node, [("E", Term("rsplit%d" % i, (v, sep), STR), None) for i in range(2)], "list", "split")
        return [(st, r1), (s2, r2)]
    return [(st, newlist(I, st, node, (("E", Top(STR), None), ("R", Top(STR), None)), "list", "split"))]


def str_format(I, st, v, args, kw, node):
    import ops
    if not isinstance(v, C):
        return [(st, Top(STR))]
    try:
        fields = list(_string.Formatter().parse(v.v))
    except ValueError as e:
        return I.implicit(st, "ValueError", node, str(e))
    cur = [(st, [])]
    auto = 0
    for lit, name, spec, conv in fields:
        val = None
        if name is not None:
            base = _re.split(r"[.\[]", name)[0]
            if base == "":
                if auto >= len(args):
                    return I.implicit(st, "IndexError", node, "format index")
                val = args[auto]
                auto += 1
            elif base.isdigit():
                if int(base) >= len(args):
                    return I.implicit(st, "IndexError", node, "format index")
                val = args[int(base)]
            elif base in kw:
                val = kw[base]
            else:
                return I.implicit(st, "KeyError", node, "format key " + base)
            path = name[len(base):]
        nx = []
        for s, acc in cur:
            if isinstance(acc, Raise):
                nx.append((s, acc))
                continue
            acc = acc + [lit] if lit else list(acc)
            if val is None:
                nx.append((s, acc))
                continue
            vals = [(s, val)]
            if path.startswith(".") and "[" not in path:
                for part in path[1:].split("."):
                    vals = [r for s1, x in vals for r in (ops.getattr_(I, s1, x, part, node) if not isinstance(x, Raise) else [(s1, x)])]
            elif path:
                vals = [(s, Top())]
            for s1, x in vals:
                if isinstance(x, Raise):
                    nx.append((s1, x))
                    continue
                if isinstance(x, C) and (spec or conv):
                    try:
                        nx.append((s1, acc + [("{" + ("!" + conv if conv else "") + (":" + spec if spec else "") + "}").format(x.v)]))
                    except Exception as e:
                        nx += I.implicit(s1, type(e).__name__, node, str(e))
                    continue
                for s2, t in ops.tostr(I, s1, x, node, bool(conv == "r" or spec)):
                    nx.append((s2, t if isinstance(t, Raise) else acc + [t]))
        cur = nx
    return [(s, a if isinstance(a, Raise) else (mkcat(a) if not any(isinstance(x, Top) for x in a) else Top(STR))) for s, a in cur]


def percent(I, st, a, b, node):
    import ops
    if isinstance(a, C) and a.v.count("%") == a.v.count("%s"):
        vals = [x for _, x, _ in b.segs] if isinstance(b, Tup) else [b]
        bits = a.v.split("%s")
        if len(bits) != len(vals) + 1:
            return I.implicit(st, "TypeError", node, "format arguments")
        return str_format(I, st, C("{}".join(x.replace("{", "{{").replace("}", "}}") for x in bits)), vals, {}, node)
    return [(st, Top(STR))]


def file_method(I, st, m, args, kw, node):
    o = st.get(args[0].a)
    path = o.attrs.get("path", Top())
    if m in ("write", "writelines"):
        st.note_eff("write", path, args[1] if len(args) > 1 else NONE)
        if disk_get(I, st, path) is None and len(args) > 1:
            disk_put(I, st, path, args[1])
        else:
            disk_put(I, st, path, Top(None, "written in several steps"))
        return [(st, Top(INT))]
    if m == "read":
        return [(st, Term("content", (path,), STR))]
    if m in ("readlines", "readline"):
        return [(st, Top())]
    return [(st, NONE)]


def match_method(I, st, m, args, kw, node):
    o = st.get(args[0].a)
    gs, names = o.attrs["groups"], o.attrs["names"]
    if isinstance(gs, Top):
        if m in ("groups", "groupdict"):
            return [(st, Top())]
        return [(st, Top(STR if m == "group" else None))]
    vals = [x for _, x, _ in gs.segs]
    nm = {x.segs[0][1].v: x.segs[1][1].v for _, x, _ in names.segs}
    if m in ("group", "__getitem__"):
        idx = [a.v if isinstance(a, C) else 0 for a in args[1:]] or [0]
        out = [vals[nm[i]] if isinstance(i, str) else vals[i] for i in idx]
        return [(st, out[0] if len(out) == 1 else tup(*out))]
    if m == "groups":
        d = args[1] if len(args) > 1 else kw.get("default")
        return [(st, tup(*[d if d is not None and x == NONE else x for x in vals[1:]]))]
    if m == "groupdict":
        return [(st, I.alloc(st, node, DictO([(C(k), vals[i], "must") for k, i in nm.items()]), "gd"))]
    return [(st, Top(None, "match"))]


def path_method(I, st, m, args, kw, node):
    import ops
    p = args[0].args[0]
    mk = lambda x: Term("Path", (x,), frozenset(["path"]))
    if m == "mkdir":
        return mkdirs(I, st, p, kw.get("exist_ok", FALSE), kw.get("parents", FALSE) == TRUE, node)
    if m in ("exists", "is_dir"):
        return [(s, B(b)) for s, b in isdir(I, st, p)]
    if m == "open":
        return do_open(I, st, p, args[1] if len(args) > 1 else kw.get("mode", C("r")), node)
    if m in ("write_text", "write_bytes"):
        res = []
        for s, f in do_open(I, st, p, C("w"), node):
            if isinstance(f, Raise):
                res.append((s, f))
            else:
                s.note_eff("write", normpath(p), args[1])
                disk_put(I, s, normpath(p), args[1])
                res.append((s, Top(INT)))
        return res
    if m in ("read_text", "read_bytes"):
        st.note_eff("read", normpath(p))
        return [(st, Term("content", (normpath(p),), STR))]
    if m in ("resolve", "absolute"):
        return [(st, mk(mkcat(["/cwd/", p])) if not (isinstance(p, C) and p.v.startswith("/")) else mk(p))]
    if m in ("expanduser",):
        return [(s, mk(x)) for s, x in expanded(st, p, m, "~")]
    if m == "joinpath":
        for b in args[1:]:
            p = path_join(I, st, p, b)
        return [(st, mk(p))]
    if m in ("unlink", "rename", "replace", "rmdir", "touch", "symlink_to"):
        st.note_eff("fs:path." + m, tuple(args), I.where(node))
        return [(st, NONE)]
    if m in ("as_posix", "__str__", "__fspath__"):
        return [(st, p)]
    return topnote(I, st, "Path." + m, node)


# ------------------------------------------------------------------ with
def enter(I, st, m, node):
    import ops
    if isinstance(m, Ref):
        o = st.get(m.a)
        if isinstance(o, Inst) and isinstance(o.cls, Bi) and o.cls.name == "file":
            return [(st, m)]
        if isinstance(o, Inst):
            f = ops.class_attr(I, st, o.cls, "__enter__")
            if f is not None and not isinstance(f, Bi):
                return I.call(st, f, [("E", m)], [], node, "enter")
    if isinstance(m, Bi) and m.name == "nullcontext":
        return [(st, m.extra[0] if m.extra else NONE)]
    return [(st, m)]


def exit_(I, st, ms, node):
    import ops
    cur = [st]
    for m in reversed(ms):
        if isinstance(m, Ref):
            nx = []
            for s in cur:
                o = s.get(m.a)
                if isinstance(o, Inst):
                    f = ops.class_attr(I, s, o.cls, "__exit__")
                    if f is not None and not isinstance(f, Bi):
                        nx += [x for x, r in I.call(s, f, [("E", m), ("E", NONE), ("E", NONE), ("E", NONE)], [], node, "exit") if not isinstance(r, Raise)]
                        continue
                nx.append(s)
            cur = nx
    return cur


# ------------------------------------------------------------------ classes
def decorate(I, st, d, fn, node):
    if isinstance(d, Bi):
        n = d.name
        if n in ("staticmethod", "classmethod", "property"):
            return [(st, Wrapped(n, fn))]
        if n == "property.setter":
            return [(st, Wrapped("property", d.self_.fn, fn))]
        if n in ("property.getter", "property.deleter"):
            return [(st, d.self_)]
        if n in ("functools.lru_cache", "functools.cache"):
            return memoised(I, st, d, fn, node)
        if n in ("functools.cached_property",):
            return [(st, Wrapped("cached_property", fn))]
        if n in ("abc.abstractproperty",):
            return [(st, Wrapped("property", fn))]
        if n in ("abc.abstractclassmethod",):
            return [(st, Wrapped("classmethod", fn))]
        if n in ("abc.abstractstaticmethod",):
            return [(st, Wrapped("staticmethod", fn))]
        if n in ("dataclasses.dataclass",) and isinstance(fn, Cls):
            fn.kind = "dataclass"
            return [(st, fn)]
        if n.startswith("typing.") or n.startswith("abc."):
            return [(st, fn)]
    return I.call(st, d, [("E", fn)], [], node)


ENUMS = ("enum.Enum", "enum.IntEnum", "enum.StrEnum", "enum.Flag", "enum.IntFlag")


def classdef(I, node, st, o):
    import ops
    from interp import FnInfo
    res = []
    for s, vs in I.evs([b.value if isinstance(b, ast.Starred) else b for b in node.bases] + [k.value for k in node.keywords], st):
        if isinstance(vs, Raise):
            o.exc.append((s, vs))
            continue
        bases = vs[: len(node.bases)]
        qual = I.qual(node.name)
        kind = "class"
        keep = []
        for b in bases:
            if isinstance(b, Bi) and b.name in ENUMS or isinstance(b, Cls) and b.kind == "enum":
                kind = "enum"
            if isinstance(b, Bi) and b.name == "typing.NamedTuple":
                kind = "namedtuple"
            if isinstance(b, Cls) and b.kind in ("namedtuple", "dataclass"):
                kind = b.kind
            if isinstance(b, Cls):
                keep.append(b)
            elif isinstance(b, Bi) and (b.name.rsplit(".", 1)[-1] in EXC):
                keep.append(Bi(b.name.rsplit(".", 1)[-1]))
        if any(isinstance(b, Bi) and b.name in ("dict", "list", "set", "str", "int", "float", "tuple", "collections.OrderedDict", "collections.UserDict",
                                                "collections.UserList", "collections.defaultdict") for b in bases):
            I.note("subclass of a builtin container: %s" % qual, node)
        bs = tuple(keep) + ((Bi("object"),) if not any(isinstance(b, Bi) for b in keep) else ())
        if any(isinstance(b, Cls) for b in keep):
            bs = tuple(keep)
        a = I.ctxs.mk(s.ctx, I.nid(node), "class")
        cls = Cls(node.name, qual, a, bs, kind)
        ops.mro(I, cls)
        I.classes[qual] = cls
        I.classes.setdefault(node.name, cls)
        s.set(a, ClsO({}))
        fr = I.ctxs.mk(s.ctx, I.nid(node), "classframe")
        ofr, ostack = s.fr, s.stack
        isdc = kind == "dataclass" or any("dataclass" in ast.dump(d) for d in node.decorator_list)
        init = {"$class": cls, "__module__": C("m"), "__qualname__": C(qual)}
        if kind == "namedtuple" or isdc:
            init["$ann"] = Tup(())
        s.set(fr, Frame(init, ofr, None))
        s.fr, s.stack = fr, ostack + (fr,)
        info = FnInfo(node, qual, I.fnstack[-1].module if I.fnstack else "", cls, False)
        info.locals, info.globals, info.nonlocals, info.captured = None, frozenset(), frozenset(), set()
        info.live = None
        info.is_module = True
        I.fnstack.append(info)
        try:
            oo = I.exec_block(node.body, [s])
        finally:
            I.fnstack.pop()
        for x, r in oo.exc:
            x.fr, x.stack = ofr, ostack
            o.exc.append((x, r))
        for x in oo.norm:
            f = x.get(fr)
            x.fr, x.stack = ofr, ostack
            attrs = {k: v for k, v in f.vars.items() if k not in ("$class", "$ann", "__module__", "__qualname__")}
            if kind == "enum":
                order = 0
                for k, v in list(attrs.items()):
                    if k.startswith("_") or isinstance(v, (Fn, Wrapped)):
                        continue
                    order += 1
                    if isinstance(v, Bi) and v.name == "$auto":
                        v = C(order)
                    m = I.place(x, I.ctxs.mk(x.ctx, I.nid(node), ("member", k)), Inst(cls, {"name": C(k), "value": v, "_name_": C(k), "_value_": v}))
                    attrs[k] = m
            x.heap.pop(fr, None) if not I.building else None
            if "$ann" in f.vars:
                own = [v.v for _, v, _ in f.vars["$ann"].segs]
                inh = []
                for b in cls.mro[1:]:
                    if isinstance(b, Cls):
                        inh = [n for n in b.fields if n not in inh] + inh
                cls.fields = tuple(inh + [n for n in own if n not in inh])
            elif kind in ("namedtuple", "dataclass"):
                for b in cls.mro[1:]:
                    if isinstance(b, Cls) and b.fields:
                        cls.fields = b.fields
                        break
            x.set(a, ClsO(attrs))
            cur = [(x, cls)]
            for d in reversed(node.decorator_list):
                nx = []
                for s1, cv in cur:
                    for s2, dv in I.split(I.evf(d, s1), o):
                        for s3, r in I.split(decorate(I, s2, dv, cv, d), o):
                            nx.append((s3, r))
                cur = nx
            for s1, cv in cur:
                I.setname(s1, node.name, cv)
                res.append(s1)
    return res


@reg("enum.auto")
def _auto(I, st, f, args, kw, node):
    return [(st, Bi("$auto"))]


def enum_members(I, st, cls):
    out = []
    for c in cls.mro or (cls,):
        if isinstance(c, Cls):
            for k, v in st.get(c.a).attrs.items():
                if isinstance(v, Ref) and isinstance(st.get(v.a), Inst) and st.get(v.a).cls == cls:
                    out.append(v)
    return out


def enum_call(I, st, cls, args, node):
    import ops
    res = []
    for s, v in ops.force(I, st, args[0][1]):
        if isinstance(v, Ref) and isinstance(s.get(v.a), Inst) and s.get(v.a).cls == cls:
            res.append((s, v))
            continue
        ms = enum_members(I, s, cls)
        hit = [m for m in ms if ops.eqv(I, s, s.get(m.a).attrs["value"], v) is True]
        poss = [m for m in ms if ops.eqv(I, s, s.get(m.a).attrs["value"], v) is not False]
        if hit:
            res.append((s, hit[0]))
        elif not poss:
            res += I.implicit(s, "ValueError", node, "not a valid " + cls.name)
        else:
            for m in poss:
                s2 = s.fork()
                s2.facts[ops.eqkey(s.get(m.a).attrs["value"], v)] = True
                res.append((s2, m))
            res += I.implicit(s, "ValueError", node, "not a valid " + cls.name)
    return res


def mkrecord(I, st, name, fields, defaults, node):
    qual = I.qual(name)
    a = I.ctxs.mk(st.ctx, I.nid(node) if node is not None else "ext", ("record", name))
    cls = Cls(name, qual, a, (Bi("object"),), "namedtuple", tuple(fields))
    cls.mro = [cls, Bi("object")]
    st.set(a, ClsO({f: d for f, d in defaults}))
    I.classes[qual] = cls
    I.classes.setdefault(name, cls)
    return cls


@reg("collections.namedtuple")
def _namedtuple(I, st, f, args, kw, node):
    fl = args[1] if len(args) > 1 else kw.get("field_names")
    if isinstance(fl, C):
        names = fl.v.replace(",", " ").split()
    else:
        segs = fl.segs if isinstance(fl, Tup) else st.get(fl.a).segs
        names = [v.v for _, v, _ in segs]
    ds = []
    d = kw.get("defaults")
    if d is not None:
        segs = d.segs if isinstance(d, Tup) else st.get(d.a).segs
        ds = list(zip(names[len(names) - len(segs):], [v for _, v, _ in segs]))
    return [(st, mkrecord(I, st, args[0].v, names, ds, node))]


def record_new(I, st, cls, args, kwargs, node):
    import ops
    vals = {}
    kw = dict(kwargs)
    if len(args) > len(cls.fields):
        return I.implicit(st, "TypeError", node, "too many arguments")
    for f, (_, v) in zip(cls.fields, args):
        vals[f] = v
    for k, v in kw.items():
        if k not in cls.fields or k in vals:
            return I.implicit(st, "TypeError", node, "bad argument " + k)
        vals[k] = v
    own_init = ops.class_attr(I, st, cls, "__init__")
    if cls.kind == "dataclass" and own_init is not None and not isinstance(own_init, Bi):
        r = I.alloc(st, node if node is not None else "ext", Inst(cls, {}), cls.qual)
        return [(s, v if isinstance(v, Raise) else r) for s, v in I.call(st, own_init, [("E", r)] + list(args), kwargs, node, "init")]
    for f in cls.fields:
        if f not in vals:
            d = ops.class_attr(I, st, cls, f)
            if isinstance(d, Bi) and d.name == "$field":
                if d.extra[1] != MISSING:
                    outs = I.call(st, d.extra[1], [], [], node, ("factory", f))
                    st, d = outs[0]
                else:
                    d = d.extra[0] if d.extra[0] != MISSING else None
            if d is None:
                return I.implicit(st, "TypeError", node, "missing argument " + f)
            vals[f] = d
    r = I.alloc(st, node if node is not None else "ext", Inst(cls, {f: vals[f] for f in cls.fields}), cls.qual)
    post = ops.class_attr(I, st, cls, "__post_init__")
    if post is not None and not isinstance(post, Bi):
        return [(s, v if isinstance(v, Raise) else r) for s, v in I.call(st, post, [("E", r)], [], node, "post")]
    return [(st, r)]


CALLS["cls.mro"] = lambda I, st, f, args, kw, node: [(st, newlist(I, st, node, [("E", c, None) for c in f.self_.mro]))]
CALLS["cls.subclasses"] = lambda I, st, f, args, kw, node: [
    (st, newlist(I, st, node, [("E", c, None) for c in {id(x): x for x in I.classes.values()}.values() if f.self_ in c.bases]))]


# ------------------------------------------------------------------ match
def match_stmt(I, node, st, o):
    import ops
    res = []
    for s, v in I.split(I.evf(node.subject, st), o):
        s.tmps = s.tmps + (v,)
        cur = [s]
        for c in node.cases:
            nx = []
            for s1 in cur:
                for s2, b in match_pat(I, s1, c.pattern, v):
                    if not b:
                        nx.append(s2)
                        continue
                    if c.guard is not None:
                        outs = I.cond(c.guard, s2)
                    else:
                        outs = [(s2, True)]
                    for s3, g in outs:
                        if isinstance(g, Raise):
                            s3.tmps = s3.tmps[:-1]
                            o.exc.append((s3, g))
                        elif g:
                            s3.tmps = s3.tmps[:-1]
                            oo = I.exec_block(c.body, [s3])
                            I.absorb(o, oo)
                            res += oo.norm
                        else:
                            nx.append(s3)
            cur = nx
        for s1 in cur:
            s1.tmps = s1.tmps[:-1]
            res.append(s1)
    return res


def match_pat(I, st, p, v):
    import ops
    if isinstance(p, ast.MatchValue):
        res = []
        for s, x in I.evf(p.value, st):
            res += ops.eqfork_user(I, s, v, x, p.value, False)
        return res
    if isinstance(p, ast.MatchSingleton):
        return ops.identity(I, st, v, C(p.value), None)
    if isinstance(p, ast.MatchAs):
        if p.pattern is None:
            if p.name:
                I.setname(st, p.name, v)
            return [(st, True)]
        res = []
        for s, b in match_pat(I, st, p.pattern, v):
            if b and p.name:
                I.setname(s, p.name, v)
            res.append((s, b))
        return res
    if isinstance(p, ast.MatchOr):
        res, cur = [], [st]
        for q in p.patterns:
            nx = []
            for s in cur:
                for s2, b in match_pat(I, s, q, v):
                    (res if b else nx).append((s2, True) if b else s2)
            cur = nx
        return res + [(s, False) for s in cur]
    if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_patterns:
        res = []
        for s, c in I.evf(p.cls, st):
            r = ops.isinst(I, s, v, c, p.cls)
            res += [(s, r)] if r is not None else ops.fork_bool(s)
        return res
    if isinstance(p, ast.MatchSequence) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
        res = []
        for s, g in seqs(I, st, v, None):
            if isinstance(g, Raise) or isinstance(v, (C, Sym, Cat)):
                res.append((s, False))
                continue
            if any(k != "E" for k, _, _ in g):
                I.note("sequence pattern on unknown length", None)
                res.append((s, False))
                continue
            if len(g) != len(p.patterns):
                res.append((s, False))
                continue
            cur = [s]
            for q, (_, x, _) in zip(p.patterns, g):
                nx = []
                for s1 in cur:
                    for s2, b in match_pat(I, s1, q, x):
                        if b:
                            nx.append(s2)
                        else:
                            res.append((s2, False))
                cur = nx
            res += [(x, True) for x in cur]
        return res
    I.note("unmodelled pattern", None)
    return ops.fork_bool(st)
