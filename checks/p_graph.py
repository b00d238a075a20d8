"""C06-C10, C24-C26: the graph library, for every graph shape of a bounded size with unknown node names."""
import itertools
import random

from base import *  # noqa
from core import soft
import base as B

# identifiers: any text without digits; numbers like those the graph chooses itself; and any text at all
NAMINGS = [("", [name("id%d" % i, "ids", nochars="[0123456789") for i in range(6)], name("idnew", "ids", nochars="[0123456789"), 1),
           ("numbered: ", ["2", "1", "3", "10", "4", "0"], "7", 4),
           ("any text: ", [name("id%d" % i, "ids") for i in range(6)], name("idnew", "ids"), 12)]
ID, NEW = NAMINGS[0][1:3]
ANY = NAMINGS[2][2]


def named(generate):
    """the scenarios of a generator over identifiers of each kind"""
    def scenarios(tier, *args):
        global ID, NEW
        for label, ids, new, step in NAMINGS:
            ID, NEW = ids, new
            r = list(generate(tier, *args))
            ID, NEW = NAMINGS[0][1:3]
            for sc in r[:: 1 if tier == "thorough" and step < 12 else step]:
                sc.sid = label + sc.sid
                yield sc
    return scenarios


def shapes(n, cyclic=True, connected=False):
    pairs = [(i, j) for i in range(n) for j in range(n) if i != j and (cyclic or i < j)]
    for m in range(1 << len(pairs)):
        yield [p for k, p in enumerate(pairs) if m >> k & 1]


def acyclic(n, edges):
    es, left = set(edges), set(range(n))
    while left:
        free = [x for x in left if not any(b == x and a in left for a, b in es)]
        if not free:
            return False
        left -= set(free)
    return True


def some(it, k, seed):
    l = list(it)
    if len(l) <= k:
        return l
    return random.Random(seed).sample(l, k)


def es(edges):
    return [[ID[a], ID[b]] for a, b in edges]


def setlike(got, want, what):
    """every wanted element exactly once, nothing else"""
    if isinstance(got, Unknown) or any(isinstance(x, (Unknown, Rest)) for x in got):
        return [("unk", "%s not known" % what)]
    if len(got) != len(want) or any(sum(1 for x in got if x == w) != 1 for w in want):
        return soft(["%s: expected %s, found %s" % (what, core_brief(want), core_brief(got))], got)
    return []


def core_brief(x):
    return repr(x)[:200]


def mirror(look, ids, nodes, edges):
    """the looked-at graph has exactly these nodes and edges, seen from both ends"""
    r = []
    for k, i in enumerate(ids):
        got = look[k]
        if isinstance(got, Unknown):
            r.append(("unk", "node not known"))
        elif i not in nodes:
            if got is not None:
                r.append("node %r exists" % i)
        elif got is None:
            r.append("node %r is missing" % i)
        else:
            if got[0] != i:
                r.append("node %r calls itself %r" % (i, got[0]))
            ch = [b for a, b in edges if a == i]
            pa = [a for a, b in edges if b == i]
            r += setlike(got[1], ch, "children of %r" % i) + setlike(got[2], pa, "parents of %r" % i)
            r += setlike(got[5], ch, "child nodes of %r" % i) + setlike(got[6], pa, "parent nodes of %r" % i)
            if got[3] != len(ch) or got[4] != len(pa):
                r.append("counts of %r: %r %r" % (i, got[3], got[4]))
    return soft(r, look)


def apply_op(nodes, edges, op, a, b):
    """reference: (accepted, nodes, edges)"""
    if op == "add node":
        return (a not in nodes), nodes + ([a] if a not in nodes else []), edges
    if op == "remove node":
        if a not in nodes:
            return False, nodes, edges
        return True, [x for x in nodes if x != a], [e for e in edges if a not in e]
    if op == "add edge":
        if a not in nodes or b not in nodes or a == b:
            return False, nodes, edges
        return True, nodes, edges + ([(a, b)] if (a, b) not in edges else [])
    if (a, b) not in edges:
        return False, nodes, edges
    return True, nodes, [e for e in edges if e != (a, b)]


def ops_on(n):
    for a in range(n):
        yield "add node", ID[a], None
        yield "remove node", ID[a], None
        for b in range(n):
            yield "add edge", ID[a], ID[b]
            yield "remove edge", ID[a], ID[b]
    yield "add node", NEW, None
    yield "remove node", NEW, None
    yield "add edge", ID[0], NEW
    yield "add edge", NEW, ID[0]
    yield "remove edge", ID[0], NEW
    yield "remove edge", NEW, ID[0]


@named
def op_scenarios(tier, accepted):
    jobs = [(3, e) for e in shapes(3)]
    if tier == "thorough":
        jobs += [(4, e) for e in some(shapes(4), 120, 1)]
    else:
        jobs = some(jobs, 48, 2) + [(4, e) for e in some(shapes(4), 12, 3)]
    for n, e in jobs:
        nodes = ID[:n]
        edges = [(ID[a], ID[b]) for a, b in e]
        for op, a, b in ops_on(n):
            ok, n2, e2 = apply_op(nodes, edges, op, a, b)
            if ok != accepted:
                continue

            def check(out, ok=ok, n2=n2, e2=e2, n=n, edges=edges, ID=ID, NEW=NEW):
                r = []
                got = [out.ret(i) for i in range(4)]
                if got[0] is not ok:
                    if not isinstance(got[0], bool):
                        return [("unk", "acceptance not known")]
                    r.append("request %s" % ("rejected" if ok else "accepted"))
                r += mirror(got[1], ID[:n] + [NEW], n2, e2)
                r += setlike(got[2], [x for x in n2 if not any(b == x for _, b in e2)], "heads")
                r += setlike(got[3], [x for x in n2 if not any(a == x for a, _ in e2)], "tails")
                c0, c1 = out.ret(4), out.ret(5)
                if not ok and c0 != c1:
                    r.append("the number of nodes the graph counted went from %r to %r" % (c0, c1))
                return r
            yield Scenario("%s %s %s in %d nodes %s" % (op, a, b, n, "".join("%d>%d " % x for x in e)), "drivers:graph_op",
                           [list(nodes), [list(x) for x in edges], op, a, b, ID[:n] + [NEW]], check)


def reachable(edges, x):
    seen, todo = [], [x]
    while todo:
        y = todo.pop()
        for a, b in edges:
            if a == y and b not in seen:
                seen.append(b)
                todo.append(b)
    return seen


def answer(query, nodes, plain, edges, ends, got):
    """is this the right answer for the graph?"""
    heads = [x for x in nodes if not any(b == x for _, b in edges)]
    bad = any(x in reachable(edges, x) for x in nodes)
    if query == "edges":
        return None
    if query == "heads and tails":
        if isinstance(got, Unknown):
            return [("unk", "not known")]
        return setlike(got[0], heads, "heads") + setlike(got[1], [x for x in nodes if not any(a == x for a, _ in edges)], "tails")
    if query == "cycles":
        if not isinstance(got, bool):
            return [("unk", "not known")]
        return [] if got is bad else ["a circular reference is %s" % ("reported in a graph without one" if got else "not reported")]
    if query == "unconnected":
        return setlike(got, [x for x in heads if x in plain], "unconnected nodes")
    if query == "order":
        if bad:
            return []
        r = setlike(got, nodes, "order of execution") if not isinstance(got, str) else ["the order of execution is refused"]
        return r or soft(["%r is listed before its parent %r" % (b, a) for a, b in edges if got.index(a) > got.index(b)], got)
    if bad or any(x in plain for x in heads) or any(x not in nodes for x in ends):
        return [] if got == "rejected" else [("unk", "not known")] if isinstance(got, Unknown) else ["paths are looked for in an invalid graph, or between nodes that are not there"]
    if isinstance(got, (str, Unknown)):
        return [("unk", "not known")] if isinstance(got, Unknown) else ["the search for paths is refused"]
    want, todo = [], [[ends[0]]]
    while todo:
        p = todo.pop()
        if p[-1] == ends[1]:
            want.append(p)
        else:
            todo += [p + [b] for a, b in edges if a == p[-1]]
    return setlike([list(p) if isinstance(p, list) else p for p in got], want, "paths from %r to %r" % tuple(ends))


def history(r, n, steps, query):
    """operations with their expected acceptance and, where the graph is asked, the graph at that point"""
    nodes, edges, plain, ops, at = [], [], [], [], []
    dag = query in ("order", "paths") or (query == "unconnected" and r.random() < .5)
    ids = ID[:n]
    for _ in range(steps):
        k = r.random()
        if k < .3 or len(nodes) < 2:
            op = ("add node" if query != "unconnected" and r.random() < (.9 if query != "paths" else .97) or r.random() < .5 else "add plain node", r.choice(ids), None)
        elif k < .42:
            op = ("remove node", r.choice(nodes if r.random() < .8 else ids), None)
        elif k < .9 or not edges:
            a, b = r.sample(nodes if r.random() < .9 else ids, 2)
            if dag and ids.index(a) > ids.index(b) and r.random() < .95:
                a, b = b, a
            op = ("add edge", a, b)
        else:
            op = ("remove edge",) + (r.choice(edges) if r.random() < .9 else tuple(r.sample(ids, 2)))
        kind = "add node" if op[0] == "add plain node" else op[0]
        ok, nodes, edges = apply_op(nodes, edges, kind, op[1], op[2])
        if ok and kind == "add node":
            plain = [x for x in plain if x != op[1]] + ([op[1]] if op[0] == "add plain node" else [])
        plain = [x for x in plain if x in nodes]
        ops.append(list(op) if op[0] != "add plain node" else [op[0], op[1], TYPES[(len(ops) * 7 + steps) % len(TYPES)]])
        at.append((ok, None))
        if r.random() < .5:
            ops.append(["ask", None, None])
            at.append((True, (list(nodes), list(plain), list(edges))))
    ops.append(["ask", None, None])
    at.append((True, (list(nodes), list(plain), list(edges))))
    return ops, at, nodes, edges


@named
def histories(tier, query, seed, rejections=None):
    """sequences of operations; what the graph answers in between and afterwards"""
    for q in range(60 if tier == "quick" else 1500):
        r = random.Random(seed * 10000 + q)
        n = r.choice([3, 4, 4, 5])
        ops, at, nodes, edges = history(r, n, r.randint(6, 16), query)
        ends = r.sample(ID[:n], 2)
        if query == "paths":
            ends = sorted(ends, key=ID.index)

        def check(out, ops=ops, at=at, nodes=nodes, edges=edges, ends=ends, n=n, ID=ID, NEW=NEW):
            got = out.ret(0)
            if isinstance(got, Unknown) or len(got) != len(at):
                return [("unk", "not known")]
            p = []
            for k, ((ok, state), g) in enumerate(zip(at, got)):
                if isinstance(g, Unknown) or not isinstance(g[0], bool):
                    p.append(("unk", "step %d not known" % k))
                elif g[0] is not ok:
                    p.append("step %d: %s is %s" % (k, ops[k], "rejected" if ok else "accepted"))
                elif state is not None:
                    a = answer(query, *state, ends, g[1])
                    p += [x if isinstance(x, tuple) else "step %d: %s" % (k, x) for x in (mirror(g[1], ID[:n], state[0], state[2]) if a is None else a)]
                if p:
                    return p
            return mirror(out.ret(1), ID[:n], nodes, edges)
        yield Scenario("history %d, %s" % (q, query), "drivers:graph_history", [ops, query, ID[:n], ends], check)


def unconnected(tier):
    yield from histories(tier, "unconnected", 35)
    yield from unconnected_shapes(tier)
    yield from bad_paths(tier)


TYPES = (None, None, None, "INPUT_ROOT", "ACTION_NODE_TYPE", "INPUT_ROOT_NODE_TYPE_2", "input_root_node_type", "INPUT_ROOT_NODE_TYPE ", "MY_INPUT_ROOT_NODE_TYPE", "", 3)


@named
def bad_paths(tier):
    """a search for paths is rejected exactly when the graph has errors or an end is missing"""
    jobs = [(n, e) for n in (0, 1, 2, 3) for e in (shapes(n) if n else [()])]
    for n, e in jobs:
        heads = [x for x in range(n) if not any(b == x for _, b in e)]
        for roots in {tuple(heads), tuple(heads[1:]), tuple(heads[:-1])} if acyclic(n, e) else {tuple(heads)}:
            ok = acyclic(n, e) and set(heads) <= set(roots)
            ops = [["add node" if x in roots else "add plain node", ID[x], None] for x in range(n)] + [["add edge", ID[a], ID[b]] for a, b in e]
            for s, t in itertools.product(range(-1, n), repeat=2):
                if not ok and (s == t or s + t > 1) and tier == "quick":
                    continue
                ends = [NEW if s < 0 else ID[s], NEW if t < 0 else ID[t]]
                want = [[ID[x] for x in p] for p in all_paths(n, e, s, t, 20)] if ok and s >= 0 and t >= 0 else "rejected"

                def check(out, want=want, n=n, e=e, ID=ID):
                    got = out.ret(0)
                    if isinstance(got, Unknown) or isinstance(got[-1], Unknown):
                        return [("unk", "not known")]
                    g = got[-1][1]
                    if (g == "rejected") is not (want == "rejected"):
                        return ["a search for paths is %s" % ("rejected" if g == "rejected" else "answered with %r" % (g,))]
                    return (setlike([list(p) for p in g], want, "paths") if want != "rejected" else []) + mirror(out.ret(1), ID[:n], ID[:n], [(ID[a], ID[b]) for a, b in e])
                yield Scenario("from %s to %s, %d nodes %s, roots %s" % (s, t, n, "".join("%d>%d " % x for x in e), list(roots)), "drivers:graph_history",
                               [ops + [["ask", None, None]], "paths", ID[:n], ends], check)


@named
def unconnected_shapes(tier):
    jobs = [(n, e) for n in (1, 2, 3) for e in shapes(n)] + [(4, e) for e in some(shapes(4), 150 if tier == "quick" else 5000, 36)]
    r = random.Random(37)
    for n, e in jobs:
        for roots in {(), tuple(range(n)), tuple(x for x in range(n) if r.random() < .5)}:
            ops = [["add node" if x in roots else "add plain node", ID[x], None] for x in range(n)] + [["add edge", ID[a], ID[b]] for a, b in e] + [["ask", None, None]]
            for o in ops:
                if o[0] == "add plain node":
                    o[2] = r.choice(TYPES)
            want = [ID[x] for x in range(n) if x not in roots and not any(b == x for _, b in e)]

            def check(out, want=want, n=n, e=e, ID=ID):
                got = out.ret(0)
                if isinstance(got, Unknown) or isinstance(got[-1], Unknown):
                    return [("unk", "not known")]
                return setlike(got[-1][1], want, "unconnected nodes") + mirror(out.ret(1), ID[:n], ID[:n], [(ID[a], ID[b]) for a, b in e])
            yield Scenario("%d nodes %s, roots %s" % (n, "".join("%d>%d " % x for x in e), list(roots)), "drivers:graph_history", [ops, "unconnected", ID[:n], [ID[0], ID[0]]], check)


def c06(tier):
    yield from op_scenarios(tier, True)
    yield from histories(tier, "edges", 6)


def c07(tier):
    yield from op_scenarios(tier, False)
    yield from histories(tier, "edges", 7)
    # identifiers handed out are never in use already
    lists = [[None, None, None], ["1", None, None], [None, "2", None], ["2", "1", None, None], ["1", "2", "3", None, None], [None, "1", None],
             [ANY, None, None], ["3", None, None, "4", None], [None, None, "2", "5", None], [ANY, ANY], [ANY, None, ANY, None], ["10", None, "10"]]
    # numbers that the graph may reach on its own, taken in any order before
    r = random.Random(17)
    for k in (1, 2, 3):
        for p in itertools.permutations("1234567"[: (7 if tier == "thorough" else 6)], k):
            lists.append(list(p) + [None] * 4)
    for _ in range(150 if tier == "quick" else 3000):
        lists.append([r.choice([None, None] + list("12345678")) for _ in range(r.randint(3, 9))])
    lists = [list(x) for x in dict.fromkeys(map(tuple, lists))]
    # and with removals in between: the k-th node that was added goes
    for l in itertools.product((None, "1", "2", "3", -1, -2), repeat=4):
        if any(isinstance(x, int) for x in l) and (tier == "thorough" or r.random() < 0.25):
            l = (None, None) + l + (None, None)
            lists.append(list(l))
    for l in lists:
        def check(out, l=l):
            ids, rej, there, same = [out.ret(i) for i in range(4)]
            if any(isinstance(x, Unknown) for x in (ids, rej, there, same)):
                return [("unk", "not known")]
            r = []
            have, k = [], 0
            for x, j in zip([x if x is None or isinstance(x, int) else out.canon(x) for x in l], rej):
                if isinstance(x, int):
                    if have:
                        gone = have.pop(-x % len(have))
                        if j is not False:
                            r.append("node %r cannot be removed" % (gone,))
                    continue
                taken = x is not None and x in have
                if j is not taken:
                    r.append("request for %s %s while %r exist" % ("any identifier" if x is None else x, "rejected" if j else "accepted", have))
                if j is False:
                    if k >= len(ids):
                        r.append("requests lost")
                        break
                    if ids[k] in have:
                        r.append("the same identifier was given to two nodes: %r" % (ids[k],))
                    if x is not None and ids[k] != x:
                        r.append("identifier %r given instead of %r" % (ids[k], x))
                    have.append(ids[k])
                    k += 1
            if any(x is not True for x in there) or list(same) != have:
                r.append("nodes not found under their identifiers %r %r" % (have, same))
            return soft(r, [ids, rej, there, same])
        yield Scenario("nodes requested as %s" % (l,), "drivers:graph_ids", [l], check)


def c08(tier):
    a, b = name("a"), name("b")
    kinds = [("plain", "other", False), ("plain", "subclass", False), ("subclass", "plain", False), ("subclass", "subclass", False), ("plain", "slot node", False),
             ("bone node", "slot node", False), ("plain", "other", True), ("subclass", "plain", True)]
    for k1, k2, linked in kinds:
        for sid, x, y in (("one name", a, a), ("two names", name("a", "g"), name("b", "g")), ("two names that may be equal", a, b)):
            def check(out):
                what = ["node == other", "other == node", "other found as dictionary key", "other found in set", "other found in list", "hash equal", "node == itself",
                        "node != other", "other != node", "node found as dictionary key of other"]
                eq = [out.ret(i) for i in range(len(what))]
                if any(not isinstance(v, bool) for i, v in enumerate(eq) if i != 5):
                    return [("unk", "comparison not known")]
                p, q = [out.canon(v) for v in out._args[:2]]
                same = p == q
                r = []
                for i, w in enumerate([same, same, same, same, same, True if same else None, True, not same, not same, same]):
                    if w is None or (i == 5 and not isinstance(eq[i], bool)):
                        continue
                    if eq[i] is not w:
                        r.append("%s is %s for nodes called %r and %r" % (what[i], eq[i], p, q))
                return r
            yield Scenario("a %s and a %s node%s of %s" % (k1, k2, " with neighbours" if linked else "", sid), "drivers:node_identity",
                           [x, y, {"k": num("v")}, None, k1, k2, linked], check)


def c09(tier):
    yield from c09_shapes(tier)
    yield from histories(tier, "heads and tails", 9)


@named
def c09_shapes(tier):
    jobs = [(n, e) for n in (1, 2, 3) for e in shapes(n)]
    jobs += [(4, e) for e in (shapes(4) if tier == "thorough" else some(shapes(4), 1500, 5))]
    jobs += [(5, e) for e in some(((e for e in rand_graphs(5, 400 if tier == "thorough" else 60, 6))), 10 ** 6, 7)]
    for n, e in jobs:
        def check(out, n=n, e=e, ID=ID, NEW=NEW):
            return (setlike(out.ret(0), [ID[x] for x in range(n) if not any(b == x for _, b in e)], "heads")
                    + setlike(out.ret(1), [ID[x] for x in range(n) if not any(a == x for a, _ in e)], "tails"))
        yield Scenario("%d nodes %s" % (n, "".join("%d>%d " % x for x in e)), "drivers:graph_heads_tails", [ID[:n], es(e)], check)


def rand_graphs(n, k, seed, dag=False):
    r = random.Random(seed)
    seen = set()
    while len(seen) < k:
        p = r.choice((0.2, 0.35, 0.5))
        order = list(range(n))
        r.shuffle(order)
        e = tuple((a, b) for a in range(n) for b in range(n) if a != b and r.random() < p and (not dag or order[a] < order[b]))
        if e in seen:
            k -= 1
            continue
        seen.add(e)
        yield list(e)


def cyc(tier):
    yield from cyc_shapes(tier)
    yield from histories(tier, "cycles", 24)


@named
def cyc_shapes(tier):
    """a circular reference is reported exactly when there is one"""
    jobs = [(n, e) for n in (1, 2, 3) for e in shapes(n)]
    jobs += [(4, e) for e in (shapes(4) if tier == "thorough" else some(shapes(4), 1200, 8))]
    jobs += [(5, e) for e in rand_graphs(5, 400 if tier == "thorough" else 60, 9)]
    for n, e in jobs:
        def check(out, n=n, e=e, ID=ID, NEW=NEW):
            g = out.ret(0)
            if not isinstance(g, bool):
                return [("unk", "not known")]
            if g is acyclic(n, e):
                return ["circular reference %s" % ("reported in a graph without one" if g else "not reported")]
            return mirror(out.ret(1), ID[:n], ID[:n], [(ID[a], ID[b]) for a, b in e])
        yield Scenario("%d nodes %s" % (n, "".join("%d>%d " % x for x in e)), "drivers:graph_cycles", [ID[:n], es(e)], check)


def order(tier):
    yield from order_shapes(tier)
    yield from histories(tier, "order", 25)


@named
def order_shapes(tier):
    """every node exactly once, after all of its parents"""
    jobs = [(n, e) for n in (1, 2, 3) for e in shapes(n) if acyclic(n, e)]
    four = [(4, e) for e in shapes(4) if acyclic(4, e)]
    jobs += four
    jobs += [(5, e) for e in rand_graphs(5, 600 if tier == "thorough" else 80, 11, True)]
    jobs += [(6, e) for e in rand_graphs(6, 600 if tier == "thorough" else 60, 12, True)]
    for n, e in jobs:
        def check(out, n=n, e=e, ID=ID, NEW=NEW):
            g = out.snap()
            r = setlike(g, ID[:n], "listed nodes")
            if r:
                return r
            for a, b in e:
                if g.index(ID[a]) > g.index(ID[b]):
                    r.append("node %r is listed before its parent %r: %r" % (ID[b], ID[a], g))
            return soft(r, g)
        yield Scenario("%d nodes %s" % (n, "".join("%d>%d " % x for x in e)), "drivers:graph_order", [ID[:n], es(e)], check)


def all_paths(n, e, s, t, depth):
    res = []

    def go(p):
        if len(p) > depth:
            return
        if p[-1] == t:
            res.append(list(p))
            return
        for a, b in e:
            if a == p[-1] and b not in p:
                go(p + [b])
    go([s])
    return res


def paths(tier):
    yield from paths_shapes(tier)
    yield from histories(tier, "paths", 26)


@named
def paths_shapes(tier):
    four = [(4, e) for e in shapes(4) if acyclic(4, e)]
    jobs = [(n, e) for n in (2, 3) for e in shapes(n) if acyclic(n, e)]
    jobs += four if tier == "thorough" else some(four, 250, 13)
    jobs += [(5, e) for e in rand_graphs(5, 200 if tier == "thorough" else 25, 14, True)]
    jobs += [(6, e) for e in rand_graphs(6, 100 if tier == "thorough" else 10, 15, True)]
    for n, e in jobs:
        roots = [ID[x] for x in range(n) if not any(b == x for _, b in e)]
        ends = [(s, t) for s in range(n) for t in range(n) if s == t or all_paths(n, e, s, t, 99)]
        ends = sorted(ends, key=lambda p: -len(all_paths(n, e, p[0], p[1], 99)))[: (6 if tier == "thorough" else 3)]
        for s, t in ends:
            longest = max(len(p) for p in all_paths(n, e, s, t, 99))
            for depth in sorted({20, max(1, longest - 1), longest}):
                def check(out, n=n, e=e, s=s, t=t, depth=depth, ID=ID, NEW=NEW):
                    g = out.snap()
                    if isinstance(g, Unknown) or any(isinstance(x, (Unknown, Rest)) for x in g):
                        return [("unk", "not known")]
                    return setlike([list(p) for p in g], [[ID[x] for x in p] for p in all_paths(n, e, s, t, depth)], "paths from %r to %r" % (ID[s], ID[t]))
                yield Scenario("%d to %d, depth %d, in %d nodes %s" % (s, t, depth, n, "".join("%d>%d " % x for x in e)), "drivers:graph_paths",
                               [ID[:n], es(e), roots, ID[s], ID[t], depth], check)


# ---------------------------------------------------------------- documents as graphs
def c10(tier):
    from p_load import orders
    n = [name("n%d" % i, "n", ne=("root",)) for i in range(8)]

    def parts(d):
        return {k: d.get(k, []) for k in ("bones", "slots", "ik")}

    def same(out):
        got = out.ret(0)
        if isinstance(got, Unknown):
            return [("unk", "not known")]
        return problems(compare({k: v for k, v in got.items() if k in ("bones", "slots", "ik")} if isinstance(got, dict) else got, parts(out.args[0]), "document"))
    docs = dict(orders())
    root = [dict(B.ROOTBONE)]
    docs["every attribute"] = B.doc(bones=root + [dict(B.full(F.BONE), parent="root")], slots=[dict(B.full(F.SLOT), bone="root")],
                                    ik=[dict(B.full(F.IK), bones=["root"])])
    docs["ik chains"] = B.doc(bones=root + [{"name": n[0], "parent": "root"}, {"name": n[1], "parent": n[0]}, {"name": n[2], "parent": n[1]}],
                              ik=[{"name": n[3], "bones": [n[1], n[2]], "target": n[0]}, {"name": n[4], "bones": [n[2]], "target": "root", "order": num("o", types=INT)},
                                  {"name": n[5], "bones": [n[0]], "target": "root"}])
    docs["many slots on one bone"] = B.doc(slots=[{"name": n[i], "bone": "root", "attachment": name("at%d" % i)} for i in (3, 0, 2, 1)])
    for o, k0 in ((F.BONE, "bones"), (F.SLOT, "slots"), (F.IK, "ik")):
        for k in o.attrs:
            if k not in ("name", "parent", "bone", "bones"):
                docs["any %s of a %s" % (k, o.kind)] = B.place(o.kind, B.one(o, k, False))
        docs["a %s without optional attributes" % o.kind] = B.place(o.kind, B.one(o, None, False))
        docs["an unknown attribute of a %s" % o.kind] = B.place(o.kind, D(*(list(B.one(o, None, False).items()) + [(name("uk", ne=tuple(o.attrs) + ("type",)), name("uv"))])))
    three = root + [{"name": n[i], "parent": "root"} for i in (0, 1, 2)]
    for sid, bs, t in (("a chain of none", [], n[0]), ("one bone twice", [n[0], n[0]], n[1]), ("a bone repeated later", [n[0], n[1], n[0]], n[2]),
                       ("bones in reverse", [n[2], n[1], n[0]], "root"), ("its target", [n[1], n[0]], n[1]), ("the root", ["root", n[1]], n[0]),
                       ("four bones", [n[1], "root", n[0], n[2]], n[2]), ("a bone that is missing", [n[6]], n[0]), ("a target that is missing", [n[0]], n[6])):
        docs["constraint on " + sid] = B.doc(bones=three, ik=[{"name": n[3], "bones": bs, "target": t, "mix": num("mix")}])
    docs["equal constraints but for the name"] = B.doc(bones=three, ik=[{"name": n[i], "bones": [n[0]], "target": n[1], "order": 0} for i in (5, 3, 4)])
    docs["parents listed after their children"] = B.doc(bones=root + [{"name": n[0], "parent": n[1]}, {"name": n[1], "parent": n[2]}, {"name": n[2], "parent": "root"}])
    docs["no root"] = B.doc(bones=[{"name": n[0]}, {"name": n[1]}, {"name": n[2], "parent": n[1]}])
    for suf in ("_BONE", "_SLOT", "_IK", "_ATTACHMENT", "_IMAGE", "_DEFAULT", "_", " ", "0"):
        plain = [name("q%d" % i, "q", ne=("root",), nochars="_ 0") for i in range(4)]
        q = [mkcat([x, C(suf)]) for x in plain]
        docs["names that end in %r" % suf] = B.doc(
            bones=root + [{"name": x, "parent": "root"} for x in (q[1], plain[1], q[0], plain[0])],
            slots=[{"name": x, "bone": y, "attachment": z} for x, y, z in ((plain[0], q[0], q[2]), (q[0], q[1], plain[2]), (q[1], plain[0], q[0]), (plain[1], plain[1], q[3]))],
            ik=[{"name": x, "bones": [y], "target": z} for x, y, z in ((q[1], q[1], plain[0]), (plain[1], plain[0], q[0]), (q[0], plain[1], "root"))],
            skins=[{"name": "default", "attachments": {plain[0]: {q[2]: {"path": name("im")}}, q[1]: {q[0]: {}, plain[1]: {"name": plain[0]}}}}])
    rnd = random.Random(23)
    for i in range(60 if tier == "quick" else 400):
        k = rnd.randint(1, 5)
        bones = [dict(B.ROOTBONE)]
        for j in range(k):
            b = {"name": n[j], "parent": rnd.choice(bones)["name"]}
            for at in rnd.sample(["x", "y", "length", "scaleX", "rotation"], rnd.randint(0, 2)):
                b[at] = num("b%d%s" % (j, at))
            bones.append(b)
        bn = [b["name"] for b in bones]
        sn, kn = rnd.sample(n, rnd.randint(0, 4)), rnd.sample(n, rnd.randint(0, 4))
        slots = [dict({"name": x, "bone": rnd.choice(bn)}, **({"attachment": rnd.choice(n)} if rnd.random() < 0.5 else {})) for x in sn]
        ik = [{"name": x, "bones": [rnd.choice(bn) for _ in range(rnd.randint(1, 3))], "target": rnd.choice(bn), "order": j} for j, x in enumerate(kn)]
        skins = [{"name": "default", "attachments": {x: {y: {} for y in rnd.sample(n, rnd.randint(1, 2))} for x in sn if rnd.random() < 0.6}}]
        docs["combination %d" % i] = B.doc(bones=bones, slots=slots, ik=ik, skins=skins)
    for sid, d in docs.items():
        yield Scenario(sid, "drivers:doc_graph", [d], same)
    c = count("slots")
    yield Scenario("any number of slots", "drivers:doc_graph",
                   [B.doc(slots=[{"name": name("s0", "s"), "bone": "root"}, Rest({"name": fam("sr", c, "s"), "bone": "root", "color": fam("cr", c)}, c), {"name": name("s9", "s"), "bone": "root"}])], same)


EMPTY_OK = ("SLOT", "ATTACHMENT", "IMAGE")


def c11(tier):
    """what the document graph says about ownership: removing things by type finds exactly the right ones"""
    for suffix in ([""], ["_SLOT"], ["_ATTACHMENT", "_SLOT"], ["_IMAGE"], ["_BONE"], [" x"]) if tier == "thorough" else ([""], ["_SLOT"], ["_ATTACHMENT"], ["_IMAGE"]):
        def nm(x):
            return mkcat([name(x, "q", nochars="[" if suffix == [" x"] else "[_ ")] + [C(p) for p in suffix] + ([C("x")] if suffix == ["_SLOT"] and x == "s1" else []))
        s = [nm("s%d" % i) for i in range(4)]
        a = [nm("a%d" % i) for i in range(4)]
        im = [nm("i%d" % i) for i in range(3)]
        slots = [{"name": x, "bone": "root"} for x in s]
        variants = {
            "own attachments": {s[0]: {a[0]: {"path": im[0]}}, s[1]: {a[1]: {"path": im[1]}}},
            "shared image": {s[0]: {a[0]: {"path": im[0]}}, s[1]: {a[1]: {"path": im[0]}}},
            "shared attachment": {s[0]: {a[0]: {"path": im[0]}}, s[1]: {a[0]: {"path": im[0]}}},
            "several in one slot": {s[0]: {a[0]: {"path": im[0]}, a[1]: {"path": im[1]}, a[2]: {"name": im[2]}}, s[1]: {a[3]: {}}},
            "nothing": {},
        }
        for sid, atts in variants.items():
            for rs in ([], [s[0]], [s[1], s[0]]):
                for ra in ([], [a[0]]):
                    have = {x for m in atts.values() for x in m}
                    if any(x not in have for x in ra):
                        continue
                    d = B.doc(slots=slots, skins=[{"name": "default", "attachments": atts}])
                    left = [x for x in s if x not in rs]
                    owner = {x: [sl for sl in left if x in atts.get(sl, {})] for x in have if x not in ra}
                    leafs = [x for x in left if not any(y in owner for y in atts.get(x, {}))]
                    gone = [x for x in owner if not owner[x]]
                    img = {y: [x for x in owner if owner[x] for sl in atts for z, v in atts[sl].items() if z == x and (v.get("path") or v.get("name") or z) == y]
                           for m in atts.values() for z, v in m.items() for y in [v.get("path") or v.get("name") or z]}
                    noimg = [y for y in img if not img[y]]

                    def check(out, leafs=leafs, gone=gone, noimg=noimg, left=left):
                        r = out.ret(0)
                        if isinstance(r, Unknown):
                            return [("unk", "not known")]
                        p = setlike(r[0], leafs, "slots without attachments") + setlike(list(r[1]) + list(r[2]), gone, "attachments without slots")
                        p += setlike(r[3], noimg, "images without attachments")
                        got = out.ret(1)
                        p += problems(compare([x["name"] for x in got["slots"]] if isinstance(got, dict) else got, [x for x in left if x not in leafs], "remaining slots"))
                        return p
                    for rb in ([], ["root"]):
                        yield Scenario("%s, names end in %s, without slots %s attachments %s%s" % (sid, suffix, rs, ra, " and the bone" if rb else ""), "drivers:container_ops",
                                       [d, list(rs), list(ra), rb], check)


import fmt38 as F  # noqa: E402
