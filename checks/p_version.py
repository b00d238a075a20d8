"""C05: versions."""
import itertools

from base import *  # noqa
import base as B
from lib import DIGITS_NO


def digits(n):
    return Sym(n, STR, True, False, None, (), DIGITS_NO)


def version(n, parts):
    ds = [digits("%s%d" % (n, i)) for i in range(parts)]
    ps = [ds[0]]
    for d in ds[1:]:
        ps += [C("."), d]
    return mkcat(ps), [Term("int", (d,), INT) for d in ds]


def want(o):
    return (o == "lt", o != "gt", o == "eq", o != "eq", o == "gt", o != "lt")


def agrees(w):
    def check(out):
        return problems(compare(out.snap(), list(w), "comparison"))
    return check


def alike(out):
    """saved like the same document of version 3.8.99: nothing but the version differs"""
    a, b = out.ret(0), out.ret(1)
    r = problems(compare(norm(F.DOC, a), norm(F.DOC, out.args[0]), "document"))
    if isinstance(a, dict) and isinstance(b, dict):
        r += problems(compare({k: v for k, v in a.items() if k != "skeleton"}, {k: v for k, v in b.items() if k != "skeleton"}, "document compared with version 3.8.99"))
    return r


def c05(tier):
    for drv in ("compare_versions", "compare_version_text"):
        text = "text" if drv == "compare_version_text" else "version"
        for na, nb in ((3, 3), (2, 3), (3, 2), (2, 2)):
            a, ia = version("a", na)
            b, ib = version("b", nb)
            comps = list(zip(ia, ib))
            tail = (ia + ib)[-1] if na != nb else None
            if na > nb:
                tail = ia[2]
            if nb > na:
                tail = ib[2]
            for os in itertools.product(("lt", "eq", "gt"), repeat=len(comps)):
                for t in (("gt", "eq") if tail is not None else (None,)):
                    facts = [(("ord", x, y), o) for (x, y), o in zip(comps, os)]
                    facts += [(("ord", x, C(0)), "gt") for x in ia[:2] + ib[:2]]
                    if t:
                        facts.append((("ord", tail, C(0)), t))
                    full = list(os)
                    if t:
                        full.append("eq" if t == "eq" else ("gt" if na > nb else "lt"))
                    res = ([o for o in full if o != "eq"] + ["eq"])[0]
                    yield Scenario("%d-part version against %d-part %s: %s" % (na, nb, text, " ".join(full)), "drivers:" + drv, [a, b], agrees(want(res)), facts=facts)
    for n in (2, 3):
        a, ia = version("a", n)
        yield Scenario("components of a %d-part version" % n, "drivers:make_version", [a],
                       (lambda n, ia, a: lambda out: problems(compare(out.snap(), [out.canon(x) for x in ia] + ([0] if n == 2 else []) + [a], "version")))(n, ia, a))
    from p_load import must_raise
    for t in ("", "3", "3.", ".8", "3.8.1.2", "a.b.c", "v3.8.1", "3.8.beta", "3.8.", "..", "3..8"):
        yield Scenario("malformed version %r" % t, "drivers:make_version", [t], must_raise, may_raise=True)
    full = lambda v: dict(B.place("region", B.full(F.REGION)), skeleton=B.header(v))  # noqa: E731
    for t in ("3.8", "3.8.0", "3.8.55", "3.8.99", "3.9.1", "3.10", "3.10.2", "3.11.1", "4.0.0", "4.1.23", "10.0.1"):
        yield Scenario("document of version %s" % t, "drivers:load_save", [full(t)], B.same_document())
    from p_load import attrs
    for t in ("3.8", "3.8.0", "3.9.1", "3.10", "3.10.2", "3.80.0", "4.0.0", "4.1.23", "10.0.1", "12.3"):
        for o in B.KINDS:
            for sid, x in [("a %s without optional attributes" % o.kind, B.one(o, None, False))] + [
                    ("any %s of a %s" % (k, o.kind), B.one(o, k, False)) for k in attrs(o) if tier == "thorough" or t in ("3.10.2", "4.1.23")]:
                yield Scenario("version %s: %s" % (t, sid), "drivers:load_save_both", [dict(B.place(o.kind, x), skeleton=B.header(t)), B.place(o.kind, x)], alike)
    a, ia = version("a", 3)
    for sid, facts in (("major number above 3", [(("ord", ia[0], C(3)), "gt")]),
                       ("3.x with x above 8", [(("ord", ia[0], C(3)), "eq"), (("ord", ia[1], C(8)), "gt")]),
                       ("3.8.x", [(("ord", ia[0], C(3)), "eq"), (("ord", ia[1], C(8)), "eq"), (("ord", ia[2], C(0)), "gt")]),
                       ("3.8.0", [(("ord", ia[0], C(3)), "eq"), (("ord", ia[1], C(8)), "eq"), (("ord", ia[2], C(0)), "eq")])):
        yield Scenario("document of any version: " + sid, "drivers:load_save", [full(a)], B.same_document(), facts=facts)


import fmt38 as F  # noqa: E402
