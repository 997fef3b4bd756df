"""C18: update and the find helpers obey their laws."""
from __future__ import annotations
import collections, copy, itertools, os
from . import impl, options as O, doc as D, space
from .c17 import cid, norm, walk, lines_of

PROP = "C18"
BOUNDS = {
    "quick": "update: every pair of value and patch over two keys from 4 values and 6 patches; every pair of object lists of up to 3 items and list patches of up to 3 (None, delete, merge, append) from 13 item/patch pairs; each of these nested under a key, in a list at index 0, 1 and beside deletions; both overwrite modes, plain and Mapfile dictionaries (4 combinations, keys in other case); "
             "every sequence of two and three patches from 16; every single key of ~620 documents and of the Mapfiles of the repository replaced, deleted, merged and kept; "
             "find helpers: every list of up to 4 items from 10 item kinds x 3 classes x every query; every path of every document",
    "thorough": "lists of up to 3 items from 26 pairs, two levels of nesting, patch sequences of up to 4, lists of up to 5 items",
}
ASSUMPTIONS = ["d2 does not put a dictionary or list of dictionaries where d1 has a scalar, an empty list over a list of scalars, or None beyond the end of a list",
               "'__delete__' is either absent or true", "plain dictionaries have lower-case keys; findunique is asked for values that can be sorted"]
HEAVY = ("wrap",)
CASE_LIMIT = 300.0
DEL = "__delete__"
NO = ("absent",)


# ---------------------------------------------------------------- reference
def is_objects(v):
    return isinstance(v, (list, tuple)) and all(i is None or isinstance(i, dict) for i in v)


def merge(a, b, ow):
    """what a (a plain dictionary) is after the patch b"""
    out = dict(a)
    for k, v in b.items():
        if isinstance(v, str) and v == DEL or isinstance(v, dict) and DEL in v:
            out.pop(k, None)
        elif isinstance(v, dict):
            out[k] = merge(out.get(k, {}), v, ow)
        elif is_objects(v):
            old, new = list(out.get(k, ())), []
            for i in range(max(len(old), len(v))):
                p = v[i] if i < len(v) else None
                if p is None:
                    new.append(old[i])
                elif DEL not in p:
                    new.append(merge(old[i] if i < len(old) else {}, p, ow))
            out[k] = new
        elif ow or k not in out:
            out[k] = v
    return out


def plain(x):
    """value without the class of dictionaries, ordered"""
    if isinstance(x, dict):
        return ("dict", tuple((k, plain(v)) for k, v in (collections.OrderedDict.items(x) if isinstance(x, collections.OrderedDict) else x.items())))
    if isinstance(x, (list, tuple)):
        return ("list", tuple(map(plain, x)))
    return (type(x).__name__, x)


def low(x):
    """dictionaries put in by a patch keep the spelling of their keys"""
    if isinstance(x, tuple) and x and x[0] == "dict":
        return ("dict", tuple((k.lower(), low(v)) for k, v in x[1]))
    if isinstance(x, tuple) and x and x[0] == "list":
        return ("list", tuple(map(low, x[1])))
    return x


def build(x, cls, up=False):
    if isinstance(x, dict):
        kv = [((k.upper() if up and k != DEL else k), build(v, cls, up)) for k, v in x.items()]
        return dict(kv) if cls == "plain" else cid()(cid(), kv)
    if isinstance(x, list):
        return [build(v, cls, up) for v in x]
    return x


COMBOS = (("plain", "plain", False), ("cid", "plain", False), ("cid", "cid", False), ("cid", "plain", True), ("plain", "cid", False))


def check(a, b, acc, sig, combos=COMBOS, ows=(True, False, None)):
    for ow in ows:
        want = plain(merge(a, b, ow is not False))
        for ca, cb, up in combos:
            x, y = build(a, ca), build(b, cb, up)
            y0 = norm(y)
            acc.trans()
            acc.trace()
            try:
                r = impl.pub.update(x, y) if ow is None else impl.pub.update(x, y, overwrite=ow)
            except Exception as e:
                acc.fail("%s|%s|%s%s%s" % (sig, ow, ca, cb, up), "%r updated by %r raises %s: %s" % (a, b, type(e).__name__, e))
                return False
            if r is not x or plain(r) != want and not (up and low(plain(r)) == want):
                acc.fail("%s|%s|%s%s%s" % (sig, ow, ca, cb, up), "%r updated by %r gives %r%s, expected %r" % (a, b, plain(r), "" if r is x else " (another object)", want))
                return False
            if norm(y) != y0:
                acc.fail("%s|%s|%s%s%s|patch" % (sig, ow, ca, cb, up), "the patch %r becomes %r" % (b, norm(y)))
                return False
            if ca == "cid" and (type(r) is not cid() or r.default_factory is not cid()):
                acc.fail("%s|%s|class" % (sig, ow), "a %s" % type(r).__name__)
                return False
            acc.state(want)
    return True


# ---------------------------------------------------------------- pairs of value and patch
VALS = [1, "s", [1, 2], [[1, 2], [3, 4]]]
PATS = [2, "S", [7], None, DEL, "__Delete__"]


def cells0():
    return [(NO, NO)] + [(v, NO) for v in VALS] + [(NO, p) for p in PATS] + [(v, p) for v in VALS for p in PATS]


def dictpair(cells, keys="ab"):
    """cells: one (value, patch) per key"""
    return ({k: c[0] for k, c in zip(keys, cells) if c[0] is not NO}, {k: c[1] for k, c in zip(keys, cells) if c[1] is not NO})


def items(n):
    """(item, patch) of a list: item and patch may be absent at the end"""
    a = [({"a": 1, "b": "s"}, {"a": 2}), ({"a": 1, "b": "s"}, {"b": DEL, "c": 3}), ({"a": 1}, {DEL: True}), ({"a": 1, "b": [1]}, None), ({"a": 1}, {}), ({}, {"a": 5}), ({"b": "t"}, NO),
         (NO, {"a": 9}), (NO, {"b": DEL, "a": 8}), (NO, {DEL: True}), (NO, {}), ({"a": {"x": 1, "y": 2}}, {"a": {"x": DEL, "z": 3}}), ({"a": [{"x": 1}, {"x": 2}]}, {"a": [None, {"x": 3}]})]
    b = [({}, None), ({}, NO), ({"a": "q"}, {DEL: True, "a": 3}), ({"a": {"x": 1}}, {"a": DEL}), ({"a": {"x": 1}}, {"a": {DEL: True}}), ({"a": {"x": 1}}, {"a": 5}), ({"a": [{"x": 1}, {"x": 2}]}, {"a": [{DEL: True}]}), ({"a": [{"x": 1}]}, {"a": DEL}), ({"a": [{"x": 1}]}, {"a": 4}),
         (NO, {"a": {"x": DEL, "y": 1}}), (NO, {"a": [{"x": 1}, {DEL: True}]}), ({"a": [1, 2]}, {"a": [3]}), ({"a": 1}, {"a": None})]
    return a + b if n > 13 else a


def wraps(v, p, deep):
    """the pair at different places of a bigger one"""
    yield "top", {"k": v} if v is not NO else {}, {"k": p} if p is not NO else {}
    a, b = {"k": v} if v is not NO else {}, {"k": p} if p is not NO else {}
    yield "beside", dict({"a": 1}, **a, z="z"), dict({"n": 1}, **b, a=DEL)
    yield "dict", {"m": a, "n": 2}, {"m": b, "n": DEL}
    yield "list 0", {"m": [a, {"o": 1}]}, {"m": [b]}
    yield "list 1", {"m": [{"o": 1}, a]}, {"m": [None, b]}
    yield "list 1 delete", {"m": [{"o": 1}, a, {"o": 2}], "n": 2}, {"m": [{DEL: True}, b, {"o": 3}], "n": 3}
    if deep:
        yield "dict dict", {"m": {"q": a, "r": 1}}, {"m": {"q": b, "r": 2}}
        yield "list list", {"m": [{"q": [{"o": 1}, a]}, {"o": 1}]}, {"m": [{"q": [{"o": 5}, b]}, {DEL: True}]}
        yield "dict list", {"m": {"q": [a, {"z": 1}]}}, {"m": {"q": [b, None]}}
        yield "list dict", {"m": [{"o": 1}, {"q": a}]}, {"m": [None, {"q": b, "s": {"t": 1, "u": DEL}}]}


# ---------------------------------------------------------------- sequences of patches
START = {"a": 1, "m": {"x": 1, "y": "s"}, "l": [{"x": 1}, {"x": 2, "y": [1]}], "p": [1, 2]}
SEQ = [{"a": 2}, {"a": DEL}, {"b": "n"}, {"m": {"x": 5}}, {"m": {DEL: True}}, {"m": {"z": {"w": 1}}}, {"m": {"x": DEL, "z": {"w": DEL}}}, {"l": [{"x": 9}]}, {"l": [None, {"y": DEL}]}, {"l": [{DEL: True}]}, {"l": [{}, {}, {"x": 3, "q": [{"v": 1}]}]}, {"l": DEL}, {"p": [3]}, {"p": DEL, "a": None}, {"l": [{"q": [{"v": 2}, {"v": 4}]}], "m": DEL}, {}]


def fits(a, b):
    """no None beyond the end of a list, nothing but like over like"""
    for k, v in b.items():
        w = a.get(k)
        if isinstance(v, dict) and DEL not in v:
            if w is not None and not isinstance(w, dict) or not fits(w or {}, v):
                return False
        elif is_objects(v):
            if k in a and not isinstance(w, list) or any(p is None and i >= len(w or ()) for i, p in enumerate(v)):
                return False
            if k in a and not is_objects(w):
                return False
            if not all(fits((w or [])[i] if i < len(w or ()) else {}, p) for i, p in enumerate(v) if p and DEL not in p):
                return False
    return True


def sequence(idx, acc):
    for ow in (True, False):
        for ca, cb, up in COMBOS[:3]:
            x, ref = build(START, ca), START
            patches = []
            for n, i in enumerate(idx):
                if not fits(ref, SEQ[i]):
                    return
                y = build(SEQ[i], cb)
                patches.append((y, norm(y)))
                ref = merge(ref, SEQ[i], ow)
                r = impl.pub.update(x, y, ow)
                acc.trans()
                if r is not x or plain(r) != plain(ref):
                    acc.fail("seq|%r|%s|%s%s" % (idx[:n + 1], ow, ca, cb), "%r gives %r, expected %r" % ([SEQ[j] for j in idx[:n + 1]], plain(r), plain(ref)))
                    return
                x = r
            acc.trace()
            acc.state(plain(ref))
            for y, y0 in patches:
                if norm(y) != y0:
                    acc.fail("seq|%r|%s|%s%s|patch" % (idx, ow, ca, cb), "a patch becomes %r" % (norm(y),))
                    return


# ---------------------------------------------------------------- documents
def nest_patch(path, last):
    """the patch that says only something about one place"""
    p = last
    for k in reversed(path):
        p = [None] * k + [p] if isinstance(k, int) else {k: p}
    return p


def document(root, lab, acc, text=None):
    """every single key of every dictionary in it"""
    if not isinstance(root, dict):
        return
    base = plain(root)

    def edited(path, f):
        y = copy.deepcopy(root)
        x = y
        for k in path:
            x = x[k]
        f(x)
        return plain(y)

    def tries(sig, patch, want, **kw):
        x = copy.deepcopy(root)
        b = norm(patch)
        acc.trans()
        acc.trace()
        try:
            r = impl.pub.update(x, patch, **kw)
        except Exception as e:
            acc.fail("doc|%s|%s" % (lab, sig), "%r: %s %s" % (patch, type(e).__name__, e), text=text)
            return False
        if r is not x or plain(r) != want:
            acc.fail("doc|%s|%s" % (lab, sig), "patch %r gives %r" % (patch, plain(r)), text=text)
            return False
        if norm(patch) != b:
            acc.fail("doc|%s|%s|patch" % (lab, sig), "patch %r has become %r" % (b, norm(patch)), text=text)
            return False
        return True

    for path, x in walk(root, (), []):
        # every list on the way has to be a list of objects
        if any(isinstance(b, int) and isinstance(a, int) for a, b in zip(path, path[1:])):
            continue
        ok = True
        y = root
        for k in path:
            if isinstance(y, list) and not all(isinstance(i, dict) for i in y):
                ok = False
            y = y[k]
        if not ok:
            continue
        new = nest_patch(path, {"brandnew": 5})
        ok = tries("new %r" % (path,), new, edited(path, lambda z: z.__setitem__("brandnew", 5))) and tries("new %r keep" % (path,), new, edited(path, lambda z: z.__setitem__("brandnew", 5)), overwrite=False)
        if not ok:
            return
        for k in list(x):
            v = x[k]
            K = k.upper()
            sig = "%r %s" % (path, k)
            gone = edited(path, lambda z: z.pop(k))
            if not tries("delete " + sig, nest_patch(path, {K: DEL}), gone) or not tries("delete keep " + sig, nest_patch(path, {k: DEL}), gone, overwrite=False):
                return
            if isinstance(v, dict):
                if not tries("delete dict " + sig, nest_patch(path, {k: {DEL: True}}), gone) or not tries("merge nothing " + sig, nest_patch(path, {k: {}}), base):
                    return
                continue
            if isinstance(v, list) and v and all(isinstance(i, dict) for i in v):
                for n in range(len(v)):
                    if not tries("delete item %d %s" % (n, sig), nest_patch(path + (k, n), {DEL: True}), edited(path, lambda z: z[k].pop(n))):
                        return
                if not tries("append " + sig, nest_patch(path + (k, len(v)), {"q": 1}), edited(path, lambda z: z[k].append({"q": 1}))):
                    return
                if not tries("skip " + sig, nest_patch(path, {k: [None] * len(v)}), base):
                    return
                continue
            for w in ("replaced", 0, [5, 6], None):
                if not tries("replace %r %s" % (w, sig), nest_patch(path, {K: w}), edited(path, lambda z: z.__setitem__(k, w))) or not tries("keep %r %s" % (w, sig), nest_patch(path, {k: w}), base, overwrite=False):
                    return
    # the whole document over itself and over nothing
    visible = [x for p, x in walk(root, (), [])]
    if not any("__comments__" in x for x in visible):
        tries("itself", copy.deepcopy(root), base)
    r = impl.pub.update({}, copy.deepcopy(root))
    acc.trans()
    if plain(r) != base:
        acc.fail("doc|%s|over nothing" % lab, "gives %r" % (plain(r),), text=text)
    acc.state(base)
    paths(root, lab, acc, text)


def paths(root, lab, acc, text=None):
    """findkey: every path of the document"""
    def rec(x, path):
        yield path, x
        if isinstance(x, dict):
            for k in list(x):
                yield from rec(x[k], path + (k,))
        elif isinstance(x, (list, tuple)):
            for i, v in enumerate(x):
                yield from rec(v, path + (i,))
    before = norm(root)
    for path, want in list(rec(root, ())):
        here = norm(want)
        for p in (path, tuple(k.upper() if isinstance(k, str) and not k.startswith("__") else k for k in path)) if not any(isinstance(k, str) and k.startswith("__") for k in path) else (path,):
            acc.trans()
            acc.trace()
            try:
                got = impl.pub.findkey(root, *p)
            except Exception as e:
                acc.fail("findkey|%s|%r" % (lab, p), "%s: %s" % (type(e).__name__, e), text=text)
                return
            if got is not want:
                acc.fail("findkey|%s|%r" % (lab, p), "gives %r, there is %r" % (got, want), text=text)
                return
        for q in ("nothing", "layers", 10 ** 6):
            if isinstance(want, dict) and q in want:
                continue
            if not isinstance(want, dict) and not isinstance(want, list) or isinstance(want, dict) == isinstance(q, int):
                continue
            acc.trans()
            try:
                got = impl.pub.findkey(root, *(path + (q,)))
                if not isinstance(got, (dict, list)) or got:
                    acc.fail("findkey|%s|%r|%s" % (lab, path, q), "finds %r" % (got,), text=text)
                    return
            except (KeyError, IndexError, TypeError):
                pass
        if norm(want) != here:
            acc.fail("findkey|%s|%r|changed" % (lab, path), "%r becomes %r" % (here, norm(want)), text=text)
            return
    if norm(root) != before:
        acc.fail("findkey|%s|changed" % lab, "the document becomes %r" % (norm(root),), text=text)


# ---------------------------------------------------------------- find helpers
KINDS = [("a",), ("ab",), ("A",), ("b",), (1,), ("1",), (0,), ("",), (), ([0, 0, 0],)]
QUERIES = ["a", "ab", "A", "b", 1, "1", 0, "", "c", "name", [0, 0, 0], 1.0, 2]
MANY = [["a"], ["a", "b"], ["b", "a"], ["ab", "A", "1"], [], [1, "1"], ("a", "ab"), {"a", "b"}, frozenset(["b", ""]), ["c"], ["a", "a"], [0, ""], [[0, 0, 0]], ["a", [0, 0, 0], 1]]
FKEYS = ("name", "NAME", "Name")


def item(kind, cls, i):
    d = {"__type__": "layer", "id": i, "group": "a"}
    if kind:
        d["name"] = copy.copy(kind[0])
    if cls == "plain":
        return d
    return cid()(cid() if cls == "cid" else None, d)


def find_list(kinds, cls, acc):
    lst = [item(k, cls if cls != "mixed" else ("plain", "cid", "nofactory")[i % 3], i) for i, k in enumerate(kinds)]
    before = [norm(x) for x in lst]
    ids = list(map(id, lst))

    def fail(sig, msg):
        acc.fail("find|%r|%s|%s" % (kinds, cls, sig), msg)

    def has(i, v):
        return bool(kinds[i]) and kinds[i][0] == v and type(kinds[i][0]) is not bool
    for key in FKEYS:
        for q in QUERIES:
            want = [i for i in range(len(lst)) if has(i, q)]
            acc.trans(2)
            acc.trace()
            got = impl.pub.find(lst, key, q)
            if (got is not lst[want[0]]) if want else got is not None:
                return fail("find %s %r" % (key, q), "find gives %r, expected item %s" % (got, want[:1]))
            if not isinstance(q, list):
                got = impl.pub.findall(lst, key, q)
                if list(map(id, got)) != [ids[i] for i in want]:
                    return fail("findall %s %r" % (key, q), "findall gives %r, expected items %r" % (got, want))
        for qs in MANY:
            want = [i for i in range(len(lst)) if any(has(i, q) for q in qs)]
            acc.trans()
            acc.trace()
            got = impl.pub.findall(lst, key, qs)
            if list(map(id, got)) != [ids[i] for i in want]:
                return fail("findall %s %r" % (key, qs), "findall gives %r, expected items %r" % (got, want))
        vals = [k[0] for k in kinds if k]
        if all(isinstance(v, str) for v in vals) or all(isinstance(v, int) for v in vals) or all(isinstance(v, list) for v in vals):
            want = []
            for v in vals:
                if v not in want:
                    want.append(v)
            acc.trans()
            acc.trace()
            got = impl.pub.findunique(lst, key)
            if got != sorted(want) or type(got) is not list:
                return fail("findunique %s" % key, "findunique gives %r, expected %r" % (got, sorted(want)))
        for key2 in ("nothing", "layers", "CLASSES", "x"):
            acc.trans(3)
            if impl.pub.find(lst, key2, "a") is not None or impl.pub.findall(lst, key2, "a") != [] or impl.pub.findall(lst, key2, ["a", "b"]) != [] or impl.pub.findunique(lst, key2) != []:
                return fail("missing key %s" % key2, "found")
    if [norm(x) for x in lst] != before or list(map(id, lst)) != ids:
        return fail("changed", "the items become %r" % ([norm(x) for x in lst],))
    acc.state((kinds, cls))


def doc_find(root, lab, acc, text=None):
    """every object list of a document, every key of its objects"""
    before = norm(root)
    for path, x in walk(root, (), []):
        for k in list(x):
            lst = x[k]
            if not isinstance(lst, list) or not lst or not all(isinstance(i, dict) for i in lst):
                continue
            keys = sorted({q for i in lst for q in i if not q.startswith("__")})
            for q in keys:
                have = [(i, i[q]) for i in lst if q in i]
                for _, v in have:
                    same = [i for i, w in have if w == v]
                    acc.trans(3)
                    acc.trace()
                    sig = "docfind|%s|%r|%s|%s" % (lab, path, k, q)
                    if impl.pub.find(lst, q.upper(), v) is not same[0]:
                        acc.fail(sig + "|find", "finds %r" % (impl.pub.find(lst, q, v),), text=text)
                        return
                    for got in [impl.pub.findall(lst, q, [v])] + ([impl.pub.findall(lst, q.upper(), v)] if not isinstance(v, (list, tuple, dict)) else []):
                        if len(got) != len(same) or any(a is not b for a, b in zip(got, same)):
                            acc.fail(sig + "|findall", "finds %d of %d" % (len(got), len(same)), text=text)
                            return
                    if isinstance(v, str) and len(v) > 1:
                        for part in (v[:-1], v[1:], v + "x", v.swapcase()):
                            want = [i for i, w in have if w == part]
                            got = impl.pub.findall(lst, q, part)
                            if len(got) != len(want) or any(a is not b for a, b in zip(got, want)):
                                acc.fail(sig + "|part", "%r found when asked for %r" % (v, part), text=text)
                                return
                vals = [v for _, v in have]
                if all(isinstance(v, str) for v in vals):
                    acc.trans()
                    if impl.pub.findunique(lst, q) != sorted(set(vals)):
                        acc.fail("docfind|%s|%r|%s|%s|unique" % (lab, path, k, q), "%r" % (impl.pub.findunique(lst, q),), text=text)
                        return
    if norm(root) != before:
        acc.fail("docfind|%s|changed" % lab, "the document becomes %r" % (norm(root),), text=text)


# ---------------------------------------------------------------- cases
def cases(tier):
    th = tier == "thorough"
    cid()
    impl.warm()
    out = []
    for i in range(len(cells0())):
        out.append(("pairs", i))
    pool = items(26 if th else 13)
    for i in range(len(pool)):
        for j in range(-1, len(pool)):
            out.append(("lists", (i, j, th)))
    for i in range(len(cells0())):
        out.append(("wrap", i))
    n = len(SEQ)
    for l in (1, 2):
        out += [("seq", p) for p in itertools.product(range(n), repeat=l)]
    out += [("seqs", (p, 4 if th else 3)) for p in itertools.product(range(n), repeat=2)]
    for l in range(0, 3):
        out += [("find", (p, l)) for p in itertools.product(range(len(KINDS)), repeat=l)]
    out += [("finds", (p, l)) for l in ((3, 4, 5) if th else (3, 4)) for p in itertools.product(range(len(KINDS)), repeat=2)]
    for i in range(len(O.core())):
        out.append(("core", i))
    out += [("corpus", (f, 1000 if th else 120)) for f in space.corpus()]
    out.append(("whole", 0))
    return out


def step(group, case, acc):
    if group == "pairs":
        c = cells0()[case]
        for d in cells0():
            for a, b in (dictpair((c, d)), dictpair((d, c), "ba")):
                check(a, b, acc, "pairs|%r|%r" % (c, d))
        acc.sample(repr(c))
    elif group == "lists":
        i, j, th = case
        pool = items(26 if th else 13)
        seqs = [(pool[i],)] if j < 0 else [(pool[i], pool[j])] + [(pool[i], pool[j], q) for q in pool]
        for c in seqs:
            for v, p in listpairs_of(c):
                for lab, a, b in wraps(v, p, th or len(c) < 3):
                    if not check(a, b, acc, "lists|%s|%r|%r" % (lab, v, p), COMBOS if len(c) < 3 else COMBOS[:2], (True, False) if len(c) > 1 else (True, False, None)):
                        return
        acc.sample(repr(seqs[-1]))
    elif group == "wrap":
        c = cells0()[case]
        for d in cells0():
            a, b = dictpair((c, d))
            for v, p in ((a, b), ([a], [b]), ([{"z": 1}, a], [None, b]), (NO, {k: w for k, w in b.items()}), (a, DEL), (a, {DEL: True, **b}), (a, 5), ([a], 5), ([a, {"x": 1}], [{DEL: True}]), (NO, [b])):
                for lab, x, y in wraps(v, p, True):
                    if not check(x, y, acc, "wrap|%s|%r|%r" % (lab, v, p), COMBOS[:4], (True, False)):
                        return
        acc.sample(repr(c))
    elif group == "seq":
        sequence(case, acc)
    elif group == "seqs":
        p, l = case
        for q in itertools.product(range(len(SEQ)), repeat=l - 2):
            sequence(p + q, acc)
        acc.sample(repr([SEQ[i] for i in p]))
    elif group in ("find", "finds"):
        p, l = case
        for q in itertools.product(range(len(KINDS)), repeat=l - len(p)):
            for cls in ("plain", "cid", "nofactory", "mixed") if l < 3 else ("cid", "mixed") if l == 3 else ("cid",):
                find_list([KINDS[i] for i in p + q], cls, acc)
            if acc.viol:
                return
        acc.sample(repr(p))
    elif group == "core":
        l, d = O.core()[case]
        text = lines_of(d)[0]
        for kw in ({}, {"comments": True, "position": True}):
            r = impl.attempt(impl.loads, text, **kw)
            if r[0] == "ok":
                document(r[1], l + str(len(kw)), acc, text)
                doc_find(r[1], l, acc, text)
        acc.sample(l)
    elif group == "corpus":
        case, size = case
        r = impl.attempt(lambda: impl.loads_auto(open(os.path.join(impl.REPO, case), encoding="utf-8", errors="replace").read()))
        if r[0] == "ok":
            for x in r[1] if isinstance(r[1], list) else [r[1]]:
                n = sum(len(y) for p, y in walk(x, (), []))
                if n <= size:
                    document(x, case, acc)
                else:
                    paths(x, case, acc)
                doc_find(x, case, acc)
            acc.sample(case)
    elif group == "whole":
        for a in ({}, {"a": 1}, {"a": {"b": 1}, "l": [{"c": 1}]}):
            check(a, {}, acc, "whole|%r" % (a,))
            for t in (tuple,):
                x = copy.deepcopy(a)
                p = {"l": ({"c": 5}, {"d": 1})}
                want = plain(merge(a, {"l": [{"c": 5}, {"d": 1}]}, True))
                acc.trans()
                if plain(impl.pub.update(x, p)) != want:
                    acc.fail("whole|tuple|%r" % (a,), "%r" % (plain(x),))


def listpairs_of(c):
    """the list pair of a sequence of item pairs, when it is one"""
    i = [x for x, y in c]
    p = [y for x, y in c]
    while i and i[-1] is NO:
        i.pop()
    while p and p[-1] is NO:
        p.pop()
    if any(x is NO for x in i) or any(x is NO for x in p) or not p:
        return
    yield i, p
