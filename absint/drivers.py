"""Driver programs. They are analysed by the abstract interpreter together with the package;
they are never executed."""
import json

import analysis

from spine_json_lib.spine_animation_editor import SpineAnimationEditor
from spine_json_lib.data.spine_version_type import SpineVersion
from spine_json_lib.deserializer.spine_nodes import SpineGraphParser, SpineNodeFactory
from spine_json_lib.graph.dagraph import DAGraph
from spine_json_lib.graph.factories import IGraphParser, INodeFactory
from spine_json_lib.graph.spamnode import SpamNode
from spine_json_lib.spine_graph_container import SpineGraphContainer


def load_save(doc):
    ed = SpineAnimationEditor(doc)
    return ed.to_json_data(), ed


def load_save_both(doc, other):
    ed = SpineAnimationEditor(doc)
    ed2 = SpineAnimationEditor(other)
    return ed.to_json_data(), ed2.to_json_data()


def clean(doc):
    ed = SpineAnimationEditor(doc)
    ed.clean_animation()
    return ed.to_json_data(), ed


def erase_anims(doc, names, strict, safe):
    ed = SpineAnimationEditor(doc)
    try:
        r = ed.erase_animations(names, strict_mode=strict, is_safe_mode=safe)
        ok = True
        data = r.result_data_json
    except Exception:
        ok = False
        data = None
    return ed.to_json_data(), ed.images_references, ok, data, ed


def erase_skins(doc, names, safe):
    ed = SpineAnimationEditor(doc)
    try:
        ed.erase_skins(names, is_safe_mode=safe)
        ok = True
    except Exception:
        ok = False
    return ed.to_json_data(), ed.images_references, ok, ed


def erase_skins_then(doc, first, second):
    """skins erased in two steps"""
    ed = SpineAnimationEditor(doc)
    ed.erase_skins(first, is_safe_mode=True)
    ed.erase_skins(second, is_safe_mode=True)
    return ed.to_json_data(), ed.images_references, True, ed


def clean_images(doc):
    ed = SpineAnimationEditor(doc)
    ed.clean_animation()
    return ed.to_json_data(), ed.images_references, ed


def edit_twice(doc, skins, anims):
    """a history: erase skins, then animations, then clean"""
    ed = SpineAnimationEditor(doc)
    ed.erase_skins(skins, is_safe_mode=True)
    ed.erase_animations(anims, is_safe_mode=True)
    ed.clean_animation()
    return ed.to_json_data(), ed.images_references, ed


def scale(doc, sx, sy):
    ed = SpineAnimationEditor(doc)
    ed.scale_animation(sx, sy)
    return ed.to_json_data(), ed


def scale_twice(doc, sx, sy, tx, ty):
    ed = SpineAnimationEditor(doc)
    ed.scale_animation(sx, sy)
    ed.scale_animation(tx, ty)
    return ed.to_json_data(), ed


def imgs(doc):
    ed = SpineAnimationEditor(doc)
    return ed.images_references, ed.get_images_references(), ed


# ---------------------------------------------------------------- sharing
def two_editors(doc, other):
    a = SpineAnimationEditor(doc)
    b = SpineAnimationEditor(other)
    x = a.to_json_data()
    y = a.to_json_data()
    z = b.to_json_data()
    return a, b, x, y, z


def operate(ed, op, names, sx):
    r = None
    if op == "clean":
        r = ed.clean_animation()
    elif op == "erase animations":
        r = ed.erase_animations(names, strict_mode=False)
    elif op == "erase animations safely":
        r = ed.erase_animations(names, strict_mode=False, is_safe_mode=True)
    elif op == "erase skins":
        r = ed.erase_skins(names)
    elif op == "erase skins safely":
        r = ed.erase_skins(names, is_safe_mode=True)
    elif op == "scale":
        r = ed.scale_animation(sx, sx)
    elif op == "scale by one":
        r = ed.scale_animation(1, 1)
    elif op == "scale by two":
        r = ed.scale_animation(2, 2)
    elif op == "images":
        r = ed.get_images_references()
    return r


def before_and_after(doc, op, names, sx):
    """what was handed out before an operation, and a second editor, stay as they were"""
    a = SpineAnimationEditor(doc)
    b = SpineAnimationEditor(doc)
    x = a.to_json_data()
    im = b.get_images_references()
    x2 = SpineAnimationEditor(doc).to_json_data()
    r = operate(a, op, names, sx)
    return a, b, x, x2, b.to_json_data(), im, b.images_references, r, a.to_json_data()


def same_twice(doc, op, names, sx):
    """the same history on equal documents gives equal results, in whatever order sets are iterated"""
    a = SpineAnimationEditor(doc)
    operate(a, op, names, sx)
    x = a.to_json_data()
    analysis.other_set_order()
    b = SpineAnimationEditor(doc)
    operate(b, op, names, sx)
    return x, a.images_references, b.to_json_data(), b.images_references


def fresh_editor(doc, before, op, names, sx):
    """an editor with a history and a new editor made from what it saves: the next operation does the same on both"""
    a = SpineAnimationEditor(doc)
    for o, ns in before:
        operate(a, o, ns, sx)
    b = SpineAnimationEditor(a.to_json_data())
    r = operate(a, op, names, sx)
    q = operate(b, op, names, sx)
    return a.to_json_data(), a.images_references, r, b.to_json_data(), b.images_references, q


def attempt(ed, w, ns, ok):
    try:
        if w == "skins":
            ed.erase_skins(ns)
        elif w == "skins safely":
            ed.erase_skins(ns, is_safe_mode=True)
        else:
            ed.erase_animations(ns, strict_mode=True)
        ok.append(True)
    except Exception:
        ok.append(False)


def rejected_then(doc, wrong, op, names, sx):
    """requests that are rejected leave no trace in what follows"""
    a = SpineAnimationEditor(doc)
    ok = []
    for w, ns in wrong:
        attempt(a, w, ns, ok)
        attempt(a, w, ns, ok)
    b = SpineAnimationEditor(doc)
    r = operate(a, op, names, sx)
    q = operate(b, op, names, sx)
    for w, ns in wrong:
        attempt(a, w, ns, ok)
        attempt(b, w, ns, ok)
    return a.to_json_data(), a.images_references, r, b.to_json_data(), b.images_references, q, ok


def fresh_requests(doc, before, wrong, sx):
    """an editor with a history and a new editor made from what it saves reject the same requests"""
    a = SpineAnimationEditor(doc)
    for o, ns in before:
        operate(a, o, ns, sx)
    b = SpineAnimationEditor(a.to_json_data())
    ok = []
    for w, ns in wrong:
        attempt(a, w, ns, ok)
        attempt(b, w, ns, ok)
    return a.to_json_data(), a.images_references, None, b.to_json_data(), b.images_references, None, ok


def report(doc, op, names):
    ed = SpineAnimationEditor(doc)
    r = operate(ed, op, names, 1)
    if op.startswith("erase animations"):
        slots, attachments = r.result_summary
        images = None
        data = r.result_data_json
    elif op.startswith("erase skins"):
        (slots, attachments), images = r
        data = None
    else:
        slots, attachments = r
        images = data = None
    return ed.to_json_data(), ed.images_references, slots, attachments, images, data


# ---------------------------------------------------------------- files
def save(doc, path):
    ed = SpineAnimationEditor(doc)
    ed.to_json(path)
    return ed.to_json_data(), ed.images_references, ed


def save_images(doc, path):
    ed = SpineAnimationEditor(doc)
    ed.save_images_json(path)
    return ed.to_json_data(), ed.images_references, ed


def load_file(doc, path):
    """an editor made from a file, used like any other"""
    analysis.file(path, doc)
    ed = SpineAnimationEditor.from_json_file(path)
    return ed.to_json_data(), ed.images_references, ed, type(ed) is SpineAnimationEditor


def load_twice(doc, path, other):
    """a file that has changed in the meantime is read again"""
    analysis.file(path, other)
    a = SpineAnimationEditor.from_json_file(path)
    a.clean_animation()
    analysis.file(path, doc)
    b = SpineAnimationEditor.from_json_file(path)
    return b.to_json_data(), b.images_references, b, type(b) is SpineAnimationEditor


def load_file_edit(doc, path, op, names, sx):
    analysis.file(path, doc)
    a = SpineAnimationEditor.from_json_file(path)
    b = SpineAnimationEditor(doc)
    operate(a, op, names, sx)
    operate(b, op, names, sx)
    return a.to_json_data(), a.images_references, b.to_json_data(), b.images_references


def save_and_load(doc, path, op, names, sx):
    """a document that was edited, saved to a file and loaded from it again"""
    ed = SpineAnimationEditor(doc)
    operate(ed, op, names, sx)
    ed.to_json(path)
    again = SpineAnimationEditor.from_json_file(path)
    return again.to_json_data(), again.images_references, ed.to_json_data(), ed.images_references


def load_graph_file(doc, path):
    analysis.file(path, doc)
    g = DAGraph.create_from_json_file(SpineGraphParser, path, SpineNodeFactory())
    h = DAGraph.create_from_json_data(SpineGraphParser, doc, SpineNodeFactory())
    text = g.to_json(SpineGraphParser)
    data = json.loads(text)
    return (g.to_json_data(SpineGraphParser), h.to_json_data(SpineGraphParser), data,
            [list(g._nodes), list(h._nodes)], [[list(n.children) for n in x._nodes.values()] for x in (g, h)])


def graph_parser_types(doc, path):
    """a graph is only made by and written with a graph parser"""
    analysis.file(path, doc)
    g = SpineGraphParser.create_from_json_data(doc, SpineNodeFactory())
    res = []
    for cls in (dict, SpamNode, SpineNodeFactory, DAGraph, IGraphParser):
        for k in range(4):
            try:
                if k == 0:
                    g.to_json(cls)
                elif k == 1:
                    g.to_json_data(cls)
                elif k == 2:
                    DAGraph.create_from_json_file(cls, path, SpineNodeFactory())
                else:
                    DAGraph.create_from_json_data(cls, doc, SpineNodeFactory())
                res.append(True)
            except Exception:
                res.append(False)
    for factory in (SpineGraphParser(), "factory", INodeFactory(), SpineNodeFactory):
        try:
            DAGraph(factory)
            res.append(True)
        except Exception:
            res.append(False)
    return res, g.to_json_data(SpineGraphParser)


def scale_clean(doc, sx, sy):
    ed = SpineAnimationEditor(doc)
    ed.scale_animation(sx, sy)
    ed.clean_animation()
    return ed.to_json_data(), ed


def compare_versions(a, b):
    v = SpineVersion(a)
    w = SpineVersion(b)
    return v < w, v <= w, v == w, v != w, v > w, v >= w


def compare_version_text(a, b):
    v = SpineVersion(a)
    return v < b, v <= b, v == b, v != b, v > b, v >= b


def make_version(a):
    v = SpineVersion(a)
    return v.major, v.minor, v.patch, str(v)


# ---------------------------------------------------------------- graphs
def build_graph(nodes, edges):
    g = DAGraph()
    for n in nodes:
        g.add_node(n)
    for e in edges:
        g.add_edge(e[0], e[1])
    return g


def look(g, ids):
    r = []
    for n in ids:
        node = g.get_node(n)
        if node is None:
            r.append(None)
        else:
            r.append([node.id, list(node.children), list(node.parents), node.num_children, node.num_parents,
                      [c.id for c in node.children.values()], [p.id for p in node.parents.values()]])
    return r


def graph_op(nodes, edges, op, a, b, ids):
    g = build_graph(nodes, edges)
    count = getattr(g, "nodes_counter", None)
    try:
        if op == "add node":
            g.add_node(a)
        elif op == "remove node":
            g.remove_node_by_id(a)
        elif op == "add edge":
            g.add_edge(a, b)
        elif op == "remove edge":
            g.remove_edge(a, b)
        ok = True
    except Exception:
        ok = False
    return ok, look(g, ids), g.get_heads_id(), g.get_tails_id(), count, getattr(g, "nodes_counter", None)


def ask(g, query, ids, ends):
    if query == "edges":
        return look(g, ids)
    if query == "heads and tails":
        return [g.get_heads_id(), g.get_tails_id()]
    if query == "cycles":
        found = False
        for e in g.validate().errors:
            if "CIRCULAR_REFS" in e:
                found = True
        return found
    if query == "unconnected":
        found = []
        for e in g.validate().errors:
            if "UNCONNECTED_NODES" in e:
                found = found + e["UNCONNECTED_NODES"]
        return found
    try:
        if query == "order":
            return g.sequential_order_of_execution()
        return g.get_all_paths(ends[0], ends[1])
    except Exception:
        return "rejected"


def graph_history(ops, query, ids, ends):
    """a graph that is changed step by step and asked after every step; the last look at its edges comes at the end"""
    g = DAGraph()
    res = []
    for op, a, b in ops:
        try:
            if op == "add node":
                g.add_node(a, None, "INPUT_ROOT_NODE_TYPE")
            elif op == "add plain node":
                if b is None:
                    g.add_node(a)
                else:
                    g.add_node(a, None, b)
            elif op == "remove node":
                g.remove_node_by_id(a)
            elif op == "add edge":
                g.add_edge(a, b)
            elif op == "remove edge":
                g.remove_edge(a, b)
            ok = True
        except Exception:
            ok = False
        if op == "ask":
            res.append([ok, ask(g, query, ids, ends)])
        else:
            res.append([ok, None])
    return res, look(g, ids)


def graph_heads_tails(nodes, edges):
    g = build_graph(nodes, edges)
    return g.get_heads_id(), g.get_tails_id()


def graph_cycles(nodes, edges):
    g = build_graph(nodes, edges)
    found = False
    for e in g.validate().errors:
        if "CIRCULAR_REFS" in e:
            found = True
    return found, look(g, nodes)


def graph_order(nodes, edges):
    return build_graph(nodes, edges).sequential_order_of_execution()


def graph_paths(nodes, edges, roots, start, end, depth):
    g = DAGraph()
    for n in nodes:
        if n in roots:
            g.add_node(n, None, "INPUT_ROOT_NODE_TYPE")
        else:
            g.add_node(n)
    for e in edges:
        g.add_edge(e[0], e[1])
    return g.get_all_paths(start, end, depth)


def graph_ids(requests):
    g = DAGraph()
    ids = []
    have = []
    rejected = []
    for r in requests:
        try:
            if isinstance(r, int):
                if have:
                    g.remove_node_by_id(have.pop(-r % len(have)))
            else:
                n = g.add_node(r).id
                ids.append(n)
                have.append(n)
            rejected.append(False)
        except Exception:
            rejected.append(True)
    return ids, rejected, [g.get_node(i) is not None for i in have], [g.get_node(i).id for i in have]


def graph_forbidden(order):
    g = DAGraph(SpineNodeFactory())
    for t in order:
        g.add_node(t, None, t)
    res = []
    for a in order:
        for b in order:
            try:
                g.add_edge(a, b)
                res.append([a, b, True])
            except Exception:
                res.append([a, b, False])
    return res, look(g, order)


class OtherNode(SpamNode):
    pass


def a_node(kind, name, order, data, public):
    if kind == "subclass":
        return OtherNode(name, order, data, None, None, public)
    if kind == "bone node":
        return SpineNodeFactory().create_node("BONE", name, order, data)
    if kind == "slot node":
        return SpineNodeFactory().create_node("SLOT", name, order, data)
    if kind == "other":
        return SpamNode(name, order, data, "x", ["y"], public)
    return SpamNode(name, order, data)


def node_identity(a, b, data1, data2, kind1, kind2, linked):
    m = a_node(kind1, a, 1, data1, None)
    n = a_node(kind2, b, 2, data2, "public")
    if linked:
        p = SpamNode("p", 3)
        q = SpamNode("q", 4)
        m._add_child(p)
        m._add_parent(q)
        n._add_parent(p)
    d = {m: 1}
    s = {m}
    e = {n: 1}
    return m == n, n == m, n in d, n in s, n in [m], hash(m) == hash(n), m == m, m != n, n != m, m in e


def doc_graph(doc):
    g = SpineGraphParser.create_from_json_data(doc, SpineNodeFactory())
    return SpineGraphParser.to_json_data(g), g


def doc_graph_edges(doc, bones, slots, iks):
    """what the graph of a document says about its hierarchy"""
    g = SpineGraphContainer(doc)
    return g.graph.to_json_data(SpineGraphParser)


def container_ops(doc, slots, attachments, bones=()):
    c = SpineGraphContainer(doc)
    for b in c.get_heads_with_type("BONE") if bones else []:
        c.graph.remove_node_by_id(b)
    c.remove_slots(slots)
    c.remove_attachments(attachments)
    r = [c.remove_leafs_of_type("SLOT"), c.remove_heads_of_type("ATTACHMENT"), c.remove_leafs_of_type("ATTACHMENT"),
         c.remove_heads_of_type("IMAGE")]
    return r, c.graph.to_json_data(SpineGraphParser)


def container_heads(doc):
    c = SpineGraphContainer(doc)
    return [len(c.get_heads_with_type(t)) for t in ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")], [
        len(c.get_leafs_of_type(t)) for t in ("BONE", "SLOT", "IK", "ATTACHMENT", "IMAGE")]
