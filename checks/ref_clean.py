"""What cleaning an animation has to do, written down independently of the library and over documents
whose names and numbers may be unknown. Works on canonical host documents (core.Out.args)."""
from core import *  # noqa
from core import D, Rest, Unknown
import fmt38 as F


ASSUMED = {}  # key times assumed to be zero (True) or not (False) on paths that hold for both


class Undecided(Exception):
    pass


def known(x):
    return not isinstance(x, (Val, Unknown))


def is0(t):
    """is this key time zero?"""
    if t is None:
        return True
    if not known(t):
        if isinstance(t, Sym) and (0 in t.ne or t.truth is True):
            return False
        if t in ASSUMED:
            return ASSUMED[t]
        raise Undecided(t)
    return t == 0


def alpha_zero(c):
    if c is None:
        return False
    if isinstance(c, Cat):
        p = c.parts[-1]
        if isinstance(p, str) and len(p) >= 2:
            return int(p[-2:], 16) == 0
    if not known(c):
        raise Undecided(("colour", c))
    return int(c[-2:], 16) == 0


def nameless(k):
    return k.get("name") in (None, "None")


def attachments_of(doc):
    """(skin index, slot, attachment name, object)"""
    for i, sk in enumerate(doc.get("skins", [])):
        for sl, atts in (sk.get("attachments") or {}).items():
            for n, o in atts.items():
                yield i, sl, n, o


def referenced(doc):
    r = [p.get("target") for p in doc.get("path", [])]
    r += [o.get("end") for _, _, _, o in attachments_of(doc) if o.get("type") == "clipping"]
    return r


def usage(doc):
    """-> (slots visible somewhere, attachment names used)"""
    slots = doc.get("slots", [])
    visible, used = [], []
    for an in doc.get("animations", SDict()).values():
        tl = an.get("slots") or {}
        for s in slots:
            n = s["name"]
            nothing = all(s.get(k) is None for k in ("attachment", "color", "dark", "blend"))
            zero = alpha_zero(s.get("color"))
            if n not in tl:
                if not nothing and not zero:
                    visible.append(n)
                    used.append(s.get("attachment"))
                continue
            t = tl[n]
            att, col = t.get("attachment") or [], (t.get("color") or []) + (t.get("twoColor") or [])
            u = [k["name"] for k in att if not nameless(k)] + ([s["attachment"]] if s.get("attachment") is not None else [])
            if not col and len(att) == 1 and nameless(att[0]) and is0(att[0].get("time")):
                continue
            if zero and not col:
                continue
            if nothing and not u:
                continue
            visible.append(n)
            used += u
    for s in slots:
        if s["name"] in referenced(doc):
            visible.append(s["name"])
            used.append(s.get("attachment"))
    return visible, used


def removals(doc):
    """-> (removed slots, removed attachment names)"""
    visible, used = usage(doc)
    names = [s["name"] for s in doc.get("slots", [])]
    kept_mesh = [n for _, sl, n, o in attachments_of(doc) if o.get("type") == "mesh" and (sl in visible or sl not in names)]
    gone_att = []
    for _, sl, n, o in attachments_of(doc):
        if n not in used and n not in kept_mesh and n not in gone_att:
            gone_att.append(n)
    ref = referenced(doc)
    gone = [n for n in names if n not in visible]
    for n in names:
        if n not in gone and n not in ref and not any(sl == n and a not in gone_att for _, sl, a, _ in attachments_of(doc)):
            gone.append(n)
    return gone, gone_att


def spine_order(names, offsets):
    """the draw order a runtime computes from one key (None: the key is not valid)"""
    n = len(names)
    order, unchanged = [None] * n, []
    original = 0
    for o in offsets:
        if o["slot"] not in names:
            return None
        i = names.index(o["slot"])
        if i < original or not known(o["offset"]):
            return None
        while original != i:
            unchanged.append(original)
            original += 1
        p = original + o["offset"]
        if not 0 <= p < n or order[p] is not None:
            return None
        order[p] = original
        original += 1
    while original < n:
        unchanged.append(original)
        original += 1
    for i in range(n - 1, -1, -1):
        if order[i] is None:
            order[i] = unchanged.pop()
    return [names[i] for i in order]


def without(d, gone):
    return {k: v for k, v in d.items() if k not in gone}


def expected(doc):
    """the cleaned document (draw order keys hold the expected order under 'order' instead of offsets)"""
    gone, gone_att = removals(doc)
    r = dict(doc)
    names = [s["name"] for s in doc.get("slots", [])]
    r["slots"] = [s for s in doc.get("slots", []) if s["name"] not in gone]
    r["skins"] = []
    for sk in doc.get("skins", []):
        sk = dict(sk)
        if sk.get("attachments"):
            sk["attachments"] = {sl: without(m, gone_att) for sl, m in sk["attachments"].items() if sl not in gone}
        r["skins"].append(sk)
    sknames = [sk["name"] for sk in doc.get("skins", [])]
    r["animations"] = {}
    for an, a in doc.get("animations", SDict()).items():
        a = dict(a)
        if a.get("slots"):
            a["slots"] = without(a["slots"], gone)
        if a.get("deform"):
            a["deform"] = {sk: {sl: (without(m, gone_att) if sk in sknames else m) for sl, m in d.items() if sl not in gone} for sk, d in a["deform"].items()}
        if a.get("drawOrder"):
            a["drawOrder"] = [dict({k: v for k, v in key.items() if k != "offsets"},
                                   order=order_after(names, key.get("offsets") or [], gone)) for key in a["drawOrder"]]
        r["animations"][an] = a
    return r


def expected_orders(doc):
    """the document itself, with draw order keys replaced by the orders they stand for"""
    r = dict(doc)
    names = [s["name"] for s in doc.get("slots", [])]
    if isinstance(doc.get("animations"), dict):
        r["animations"] = {}
        for an, a in doc.get("animations", SDict()).items():
            if isinstance(a, dict) and a.get("drawOrder"):
                a = dict(a)
                a["drawOrder"] = [dict({k: v for k, v in key.items() if k != "offsets"}, order=spine_order(names, key.get("offsets") or [])) for key in a["drawOrder"]]
            r["animations"][an] = a
    return r


def order_after(names, offsets, gone):
    o = spine_order(names, offsets)
    return None if o is None else [n for n in o if n not in gone]


def with_orders(doc):
    """result document with its draw order keys replaced by the orders they produce"""
    if not isinstance(doc, dict) or not isinstance(doc.get("animations"), dict) or not isinstance(doc.get("slots", []), list):
        return doc
    names = [s.get("name") for s in doc.get("slots", [])]
    r = SDict()
    r.update(doc)
    r.many, r.fuzzy = doc.many, doc.fuzzy
    ans = SDict()
    ans.many, ans.fuzzy = doc.get("animations", SDict()).many, doc.get("animations", SDict()).fuzzy
    for an, a in doc.get("animations", SDict()).items():
        if isinstance(a, dict) and a.get("drawOrder"):
            b = SDict()
            b.update(a)
            b.many, b.fuzzy = a.many, a.fuzzy
            keys = []
            for key in a["drawOrder"]:
                if not isinstance(key, dict):
                    keys.append(key)
                    continue
                offs = key.get("offsets") or []
                k2 = SDict()
                k2.update({k: v for k, v in key.items() if k != "offsets"})
                k2.fuzzy = key.fuzzy
                k2["order"] = spine_order(names, offs) if all(isinstance(o, dict) and "slot" in o and "offset" in o for o in offs) else None
                keys.append(k2)
            b["drawOrder"] = SList(keys)
            a = b
        ans[an] = a
    r["animations"] = ans
    return r


from core import SDict, SList  # noqa: E402
