"""C17: the dictionaries behave as case-insensitive, insertion-ordered dictionaries.

The reference is an ordinary dict whose keys are folded with str.lower. States are the contents of a dictionary (ordered
items and factory); every operation is executed from every reachable state, reached by replaying a shortest history on a
fresh real dictionary, and every history up to a depth is executed as well."""
from __future__ import annotations
import collections, copy, itertools, os, pickle
from . import impl, options as O, doc as D, space

PROP = "C17"
KEYS = ("layers", "web", "name")
BOUNDS = {
    "quick": "3 keys x 3 spellings, 4 values: every operation from every reachable state (all ordered subsets of the keys x values incl. auto-created entries), dictionaries with factory, without, and from loads; every history of depth 3 over ~100 operations, depth 4 over 31, depth 5 over 13; "
             "every construction and update of up to 3 pairs in 8 forms; copies, deepcopies and pickles (protocols 0-5) of every state, and every operation applied to them; every dictionary in ~620 loaded documents and the Mapfiles of the repository",
    "thorough": "depth 4 over ~100 operations, depth 5 over 31, depth 7 over 13; constructions and updates of up to 4 pairs",
}
ASSUMPTIONS = ["string keys; 'lower case' is str.lower", "get, pop and setdefault of a missing key do not create entries: they do what they do on an ordinary dictionary",
               "without a default factory reading any missing key raises KeyError",
               "the bookkeeping dictionaries __comments__ and __position__ are not Mapfile dictionaries"]
HEAVY = ("hist",)
CASE_LIMIT = 300.0
LISTS = ("layers", "classes", "styles", "symbols", "labels", "outputformats", "features", "scaletokens", "composites", "joins")
CID = None


def cid():
    global CID
    if CID is None:
        from mappyfile.ordereddict import CaseInsensitiveOrderedDict
        CID = CaseInsensitiveOrderedDict
    return CID


class Ref:
    """the reference: an ordinary dict over lower-cased keys"""

    def __init__(self, factory, pairs=()):
        self.m, self.factory = {}, factory
        for k, v in pairs:
            self.m[k.lower()] = v

    def read(self, k):
        k = k.lower()
        if k not in self.m:
            if not self.factory:
                raise KeyError(k)
            self.m[k] = [] if k in LISTS else Ref(False)
        return self.m[k]


VALUES = {
    "s": lambda: "Abc",
    "n": lambda: None,
    "l": lambda: ["X", {"Y": 1}],
    "d": lambda: {"Key": "V", "b": ["c"]},
    "i": lambda: 0,
}


def norm(x):
    if isinstance(x, Ref):
        return ("CID", x.factory, tuple((k, norm(v)) for k, v in x.m.items()))
    if isinstance(x, cid()):
        if type(x) is not cid():
            return ("class", type(x).__name__)
        f = x.default_factory
        return ("CID", f is not None if f in (None, cid()) else repr(f), tuple((k, norm(collections.OrderedDict.__getitem__(x, k))) for k in x))
    if isinstance(x, dict):
        return (type(x).__name__, tuple((k, norm(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(map(norm, x)))
    if isinstance(x, (str, bool, int, float)) or x is None:
        return (type(x).__name__, x)
    return ("other", type(x).__name__)


class Plain:
    """a mapping which is no dict"""

    def __init__(self, pairs):
        self.p = dict(pairs)

    def keys(self):
        return list(self.p)

    def __getitem__(self, k):
        return self.p[k]


def lowered(k):
    return k.lower()


# ---------------------------------------------------------------- operations: on the pair (real, reference)
def op(o, x, r):
    """-> (real, reference, real result, reference result)"""
    n = o[0]

    def both(f, g):
        try:
            a = norm(f())
        except Exception as e:
            a = ("exc", type(e).__name__)
        try:
            b = norm(g())
        except Exception as e:
            b = ("exc", type(e).__name__)
        return a, b
    m = r.m
    L = o[1].lower() if len(o) > 1 and isinstance(o[1], str) else None
    k = o[1] if len(o) > 1 else None
    if n == "set":
        def f(): x[k] = VALUES[o[2]]()
        def g(): m[L] = VALUES[o[2]]()
    elif n == "get":
        def f(): return x[k]
        def g(): return r.read(k)
    elif n == "del":
        def f(): del x[k]
        def g(): del m[L]
    elif n == "in":
        def f(): return (k in x, x.has_key(k), k not in x)
        def g(): return (L in m, L in m, L not in m)
    elif n == "getm":
        def f(): return (x.get(k), x.get(k, 7), x.get(k, None))
        def g(): return (m.get(L), m.get(L, 7), m.get(L, None))
    elif n == "pop":
        def f(): return x.pop(k)
        def g(): return m.pop(L)
    elif n == "popd":
        def f(): return x.pop(k, "Dflt")
        def g(): return m.pop(L, "Dflt")
    elif n == "popkw":
        def f(): return x.pop(k, None)
        def g(): return m.pop(L, None)
    elif n == "sd":
        def f(): return x.setdefault(k, VALUES[o[2]]())
        def g(): return m.setdefault(L, VALUES[o[2]]())
    elif n == "sdn":
        def f(): return x.setdefault(k)
        def g(): return m.setdefault(L)
    elif n == "upd":
        def f(): return update(x, o[1], [(a, VALUES[b]()) for a, b in o[2]])
        def g():
            for a, b in ordered(o[1], o[2]):
                m[a.lower()] = VALUES[b]()
    elif n == "self":
        def f(): return x.update(x)
        def g(): return None
    elif n == "popitem":
        def f(): return x.popitem(last=o[1])
        def g():
            if not m:
                raise KeyError
            kk = list(m)[-1 if o[1] else 0]
            return (kk, m.pop(kk))
    elif n == "move":
        def f(): return x.move_to_end(L, last=o[2])
        def g():
            v = m.pop(L)
            rest = list(m.items())
            m.clear()
            m.update(rest + [(L, v)] if o[2] else [(L, v)] + rest)
    elif n == "clear":
        def f(): return x.clear()
        def g(): return m.clear()
    elif n == "append":
        def f():
            y = x.get(k)
            return y.append(1) if isinstance(y, list) else None
        def g():
            y = m.get(L)
            return y.append(1) if isinstance(y, list) else None
    elif n == "nest":
        def f():
            y = x[k]
            if isinstance(y, dict):
                y["Nest"] = 1
            return y
        def g():
            y = r.read(k)
            if isinstance(y, Ref):
                y.m["nest"] = 1
            elif isinstance(y, dict):
                y["Nest"] = 1
            return y
    elif n in ("copy", "copy.copy", "deep", "pickle", "new", "newp"):
        try:
            if n == "copy":
                y, s = x.copy(), shallow(r)
            elif n == "copy.copy":
                y, s = copy.copy(x), shallow(r)
            elif n == "deep":
                y, s = copy.deepcopy(x), copy.deepcopy(r)
            elif n == "pickle":
                y, s = pickle.loads(pickle.dumps(x, o[1])), copy.deepcopy(r)
            elif n == "new":
                y, s = cid()(x.default_factory, x), shallow(r)
            else:
                y, s = cid()(x.default_factory, [(a.upper(), b) for a, b in x.items()]), shallow(r)
        except Exception as e:
            return x, r, ("exc", type(e).__name__), ("copied",)
        return y, s, ("copied",) if y is not x else ("same object",), ("copied",)
    else:
        raise AssertionError(o)
    a, b = both(f, g)
    return x, r, a, b


def shallow(r):
    s = Ref(r.factory)
    s.m = dict(r.m)
    return s


FORMS = ("dict", "pairs", "gen", "kw", "mix", "odict", "plain", "cid")


def ordered(form, pairs):
    """what a dictionary given in this form delivers, in order"""
    if form in ("dict", "odict", "plain", "kw"):
        return list(dict(pairs).items())
    if form == "mix":
        return list(dict(pairs[:1]).items()) + list(dict(pairs[1:]).items())
    if form == "cid":
        return list({a.lower(): b for a, b in pairs}.items())
    return list(pairs)


def arguments(form, pairs):
    if form == "dict":
        return (dict(pairs),), {}
    if form == "pairs":
        return (list(pairs),), {}
    if form == "gen":
        return ((p for p in pairs),), {}
    if form == "kw":
        return (), dict(pairs)
    if form == "mix":
        return (dict(pairs[:1]),), dict(pairs[1:])
    if form == "odict":
        return (collections.OrderedDict(pairs),), {}
    if form == "plain":
        return (Plain(pairs),), {}
    return (cid()(None, pairs),), {}


def update(x, form, pairs):
    a, k = arguments(form, pairs)
    return x.update(*a, **k)


# ---------------------------------------------------------------- observation of a state
SPELL = lambda k: (k, k.upper(), k.capitalize())


def look(x, r, keys=KEYS):
    """everything an observer that changes nothing can see; None when all agree"""
    m = r.m
    w = list(m)
    items = [(k, norm(v)) for k, v in m.items()]
    if list(x) != w or list(x.keys()) != w or list(reversed(x)) != w[::-1] or len(x) != len(w) or bool(x) != bool(w):
        return "keys %r, reference %r" % (list(x), w)
    if [(k, norm(v)) for k, v in x.items()] != items:
        return "items %r, reference %r" % ([(k, norm(v)) for k, v in x.items()], items)
    if [norm(v) for v in x.values()] != [v for k, v in items]:
        return "values %r, reference %r" % (list(x.values()), items)
    for k in tuple(keys) + tuple(w):
        for s in SPELL(k):
            if (s in x) != (k in m) or x.has_key(s) != (k in m):
                return "%r in: %r" % (s, s in x)
            if norm(x.get(s, 77)) != norm(m.get(k, 77)) or norm(x.get(s)) != norm(m.get(k)):
                return "get(%r): %r" % (s, x.get(s, 77))
            if k in m and (norm(x[s]) != norm(m[k]) or x[s] is not x[k]):
                return "[%r]: %r" % (s, x[s])
    if list(x) != w:
        return "reading has changed the keys to %r" % list(x)
    return None


# ---------------------------------------------------------------- alphabets
def full_ops(n=2):
    out = []
    for k in KEYS:
        for s in SPELL(k):
            out += [("set", s, v) for v in "snld"] + [("get", s), ("del", s), ("in", s), ("getm", s), ("pop", s), ("popd", s), ("popkw", s), ("sdn", s), ("append", s), ("nest", s)]
            out += [("sd", s, v) for v in "sld"] + [("move", s, b) for b in (True, False)]
    out += update_ops(n) + update_some() + [("self",), ("clear",), ("popitem", True), ("popitem", False), ("copy",), ("copy.copy",), ("deep",), ("new",), ("newp",)]
    out += [("pickle", p) for p in range(6)]
    return out


def update_some():
    return [("upd", f, p) for f in FORMS for p in ([("NAME", "s"), ("layers", "l")], [("Web", "s"), ("name", "l"), ("WEB", "d")], [("LAYERS", "d"), ("layers", "i")], [("Name", "n"), ("LAYERS", "s"), ("web", "i")]) if len({k for k, v in p[f == "mix":]}) == len(p[f == "mix":])]


def update_ops(n):
    out = []
    for l in range(n + 1):
        for ks in itertools.product([s for k in KEYS for s in SPELL(k)[:2]], repeat=l):
            for vs in itertools.product("sl", repeat=l) if l < 2 else [("s", "l", "i", "d")[:l]]:
                for f in FORMS:
                    p = list(zip(ks, vs))
                    if f == "mix" and not p or len(dict(p)) < len(p) and f in ("dict", "odict", "kw", "plain"):
                        continue
                    out.append(("upd", f, p))
    return out


def mid_ops():
    """~100 operations"""
    out = []
    for k in KEYS:
        a, b, c = SPELL(k)
        out += [("set", b, "s"), ("set", a, "l"), ("set", c, "d"), ("get", a), ("get", b), ("get", c), ("del", a), ("del", b), ("del", c), ("pop", a), ("pop", c), ("popd", b), ("sd", c, "l"), ("sd", a, "s"), ("sdn", b), ("append", b), ("nest", c), ("move", a, True), ("move", a, False), ("in", b), ("getm", c)]
    out += [("upd", "dict", [("NAME", "s"), ("layers", "l")]), ("upd", "pairs", [("Web", "s"), ("name", "l"), ("WEB", "d")]), ("upd", "kw", [("Layers", "d"), ("web", "i")]), ("upd", "mix", [("layers", "s"), ("LAYERS", "l")]), ("upd", "cid", [("Name", "n"), ("LAYERS", "s")]), ("upd", "gen", [("web", "l"), ("WEB", "s")]),
            ("self",), ("clear",), ("popitem", True), ("popitem", False), ("copy",), ("copy.copy",), ("deep",), ("new",), ("newp",), ("pickle", 0), ("pickle", 1), ("pickle", 2), ("pickle", 3), ("pickle", 4), ("pickle", 5)]
    return out


def small_ops():
    """31 operations: two keys in two spellings"""
    out = []
    for k in KEYS[:2]:
        a, b = k, k.upper()
        out += [("set", b, "s"), ("set", a, "l"), ("get", b), ("del", b), ("pop", b), ("sd", b, "d"), ("append", b), ("nest", b), ("popd", a)]
    return out + [("get", "Name"), ("set", "NAME", "n"), ("upd", "pairs", [("WEB", "s"), ("Layers", "l")]), ("upd", "kw", [("LAYERS", "d"), ("name", "s")]), ("self",), ("popitem", True), ("copy",), ("deep",), ("pickle", 2), ("newp",), ("popitem", False), ("clear",), ("sdn", "LAYERS")]


def tiny_ops():
    return [("set", "LAYERS", "s"), ("get", "Layers"), ("del", "LAYERS"), ("append", "LAYERS"), ("set", "Web", "l"), ("nest", "WEB"), ("pop", "WEB"), ("sd", "WEB", "d"), ("upd", "pairs", [("WEB", "s"), ("Layers", "l")]), ("copy",), ("deep",), ("pickle", 2), ("popitem", False)]


# ---------------------------------------------------------------- dictionaries to start from
def start(kind):
    if kind == "factory":
        return cid()(cid()), Ref(True)
    if kind == "none":
        return cid()(), Ref(False)
    if kind == "loads":
        x = impl.loads("MAP END")
        del x["__type__"]
        return x, Ref(True)
    if kind == "metadata":
        x = impl.loads("METADATA 'Abc' 'x' END")
        if isinstance(x, list):
            x = x[0]
        for k in list(x):
            del x[k]
        return x, Ref(True)
    raise AssertionError(kind)


KINDS = ("factory", "none", "loads", "metadata")


def replay(kind, hist):
    x, r = start(kind)
    for o in hist:
        x, r, a, b = op(o, x, r)
    return x, r


# ---------------------------------------------------------------- every operation from every reachable state
def grow(kind):
    """shortest histories of all states over (set, get, nest) reachable contents"""
    x, r = start(kind)
    gen = [("set", s, v) for k in KEYS for s in (k.upper(),) for v in ("sl" if kind != "none" else "sld")] + [("get", k.capitalize()) for k in KEYS] + [("nest", k) for k in KEYS]
    seen, todo, out = {norm(r)}, [()], [()]
    while todo:
        nxt = []
        for h in todo:
            for o in gen:
                s = start_ref(kind, h + (o,))
                if len(s.m) > (3 if kind in ("factory", "none") else 2) or norm(s) in seen:
                    continue
                seen.add(norm(s))
                nxt.append(h + (o,))
        out += nxt
        todo = nxt
    return out


def start_ref(kind, hist):
    r = Ref(kind != "none")
    for o in hist:
        try:
            if o[0] == "set":
                r.m[o[1].lower()] = VALUES[o[2]]()
            elif o[0] == "get":
                r.read(o[1])
            else:
                y = r.read(o[1])
                if isinstance(y, Ref):
                    y.m["nest"] = 1
                elif isinstance(y, dict):
                    y["Nest"] = 1
        except KeyError:
            pass
    return r


_grown = {}


def grown(kind):
    if kind not in _grown:
        _grown[kind] = grow(kind)
    return _grown[kind]


def mutables(x, out=None):
    out = {} if out is None else out
    if isinstance(x, (dict, list)):
        if id(x) in out:
            return out
        out[id(x)] = x
        for v in (collections.OrderedDict.values(x) if isinstance(x, collections.OrderedDict) else x.values() if isinstance(x, dict) else x):
            mutables(v, out)
    return out


COPIES = [("copy",), ("copy.copy",), ("deep",), ("new",), ("newp",)] + [("pickle", p) for p in range(6)]


def probes():
    """one operation of every kind per key, on a copy"""
    out = []
    for k in KEYS:
        a, b, c = SPELL(k)
        out += [("set", b, "l"), ("get", c), ("del", b), ("pop", c), ("sd", b, "d"), ("append", c), ("nest", b), ("popd", b), ("sdn", c)]
    return out + [("upd", "pairs", [("WEB", "s"), ("Layers", "l"), ("NAME", "i")]), ("self",), ("clear",), ("popitem", True), ("popitem", False)]


def state(kind, h, acc, ops, th):
    label = "%s|%r" % (kind, h)
    x, r = replay(kind, h)
    acc.state((kind, norm(r)))
    bad = look(x, r)
    acc.trans(40)
    if bad:
        acc.fail("state|" + label, bad)
        return
    for o in ops:
        x, r = replay(kind, h)
        x0, r0 = x, r
        x, r, a, b = op(o, x, r)
        acc.trans()
        acc.trace()
        if a != b:
            acc.fail("op|%s|%r" % (label, o), "%r gives %r, an ordinary dictionary gives %r" % (o, a, b))
            return
        bad = look(x, r) or (x0 is not x and look(x0, r0))
        if bad:
            acc.fail("op|%s|%r" % (label, o), "after %r: %s" % (o, bad))
            return
        acc.state((kind, norm(r)))
    # copies
    for c in COPIES:
        x, r = replay(kind, h)
        y, s, a, b = op(c, x, r)
        acc.trans(4)
        if a != b:
            acc.fail("copy|%s|%r" % (label, c), "%r" % (a,))
            return
        if type(y) is not type(x) or y != x or not (x == y) or y.default_factory is not x.default_factory or list(y) != list(x):
            acc.fail("copy|%s|%r" % (label, c), "the copy %r of class %s is not equal to %r" % (norm(y), type(y).__name__, norm(x)))
            return
        if c[0] in ("deep", "pickle"):
            both = set(mutables(x)) & set(mutables(y))
            if both:
                acc.fail("copy|%s|%r" % (label, c), "shares %r with the original" % [mutables(x)[i] for i in both])
                return
        elif any(y[k] is not x[k] for k in list(x)):
            acc.fail("copy|%s|%r" % (label, c), "a copy holds the same values")
            return
        for o in probes() if th or c[0] in ("copy", "deep") or c == ("pickle", 2) else ():
            for first in (0, 1):
                x, r = replay(kind, h)
                y, s, a, b = op(c, x, r)
                if first:
                    _, _, a, b = op(o, y, s)
                else:
                    _, _, a, b = op(o, x, r)
                acc.trans(2)
                acc.trace()
                bad = a != b and "%r gives %r, reference %r" % (o, a, b) or look(y, s) or look(x, r)
                if bad:
                    acc.fail("copy|%s|%r|%r|%d" % (label, c, o, first), "%s after %r on %s: %s" % (c[0], o, ("the original", "the copy")[first], bad))
                    return


# ---------------------------------------------------------------- histories
def histories(kind, prefix, ops, depth, acc):
    """every sequence that starts with prefix"""
    for rest in itertools.product(ops, repeat=depth - len(prefix)):
        h = prefix + rest
        x, r = start(kind)
        kept = []
        ok = True
        for n, o in enumerate(h):
            y, s, a, b = op(o, x, r)
            if a != b:
                acc.fail("hist|%s|%r" % (kind, h[:n + 1]), "%r gives %r, an ordinary dictionary gives %r" % (o, a, b))
                ok = False
                break
            if y is not x:
                kept.append((x, r))
            x, r = y, s
        acc.trans(len(h))
        acc.trace()
        if ok:
            for y, s in kept + [(x, r)]:
                if norm(y) != norm(s):
                    acc.fail("hist|%s|%r" % (kind, h), "holds %r, reference %r" % (norm(y), norm(s)))
                    break
            acc.state(norm(r))
        if len(acc.viol) > 5:
            return


# ---------------------------------------------------------------- construction
def build(n, first, acc):
    sp = [s for k in KEYS for s in SPELL(k)[:2]]
    for l in range(1, n + 1):
        for ks in itertools.product(sp, repeat=l - 1):
            ks = (first,) + ks
            for vs in (("s", "l", "d", "i"), ("l", "s", "n", "d")):
                p = list(zip(ks, vs))
                for f in FORMS:
                    if f == "mix" and len(dict(p[1:])) < len(p) - 1 or len(dict(p)) < len(p) and f in ("dict", "odict", "kw", "plain"):
                        continue
                    for fac in (None, cid(), list):
                        a, k = arguments(f, [(q, VALUES[v]()) for q, v in p])
                        sig = "new|%s|%r|%s" % (f, p, fac)
                        try:
                            x = cid()(fac, *a, **k)
                        except Exception as e:
                            acc.fail(sig, "%s: %s" % (type(e).__name__, e))
                            return
                        r = Ref(fac is not None, [(q, VALUES[v]()) for q, v in ordered(f, p)])
                        acc.trans()
                        acc.trace()
                        if fac is list:
                            bad = None if [(q, norm(v)) for q, v in x.items()] == [(q, norm(v)) for q, v in r.m.items()] else "holds %r" % (norm(x),)
                            bad = bad or (None if x["MISSING"] == [] and "missing" in x else "the factory is not used")
                        else:
                            bad = look(x, r)
                        if bad:
                            acc.fail(sig, bad)
                            return
                        acc.state(norm(x))
                        # the same by update of a dictionary holding the first pair
                        for fac2 in (None, cid()) if fac is None else ():
                            x, r = cid()(fac2), Ref(fac2 is not None)
                            x["NAME"], r.m["name"] = 5, 5
                            a, k = arguments(f, [(q, VALUES[v]()) for q, v in p])
                            try:
                                x.update(*a, **k)
                            except Exception as e:
                                acc.fail(sig + "|update", "%s: %s" % (type(e).__name__, e))
                                return
                            for q, v in ordered(f, p):
                                r.m[q.lower()] = VALUES[v]()
                            acc.trans()
                            acc.trace()
                            bad = look(x, r)
                            if bad:
                                acc.fail(sig + "|update", bad)
                                return


ODD = ["", " ", "E", "e", "SELF", "self", "KEY", "Default", "default_factory", "ARGS", "kwargs", "É", "ẞ", "ß", "SS", "İ", "ſ", "S", "K", "k", "ΑΣ", "ας", "ασ", "Ǆ", "ǅ", "__TYPE__", "__Comments__", "1A", "a b", "Layers", "layers ", "LAYER", "Ω", "Ω", "ﬁ", "FI", "\u0130x", "I", "ı", "i", "x" * 300, "Update", "items", "POP", "get"]


def odd(acc):
    """keys of other kinds: two at a time"""
    for a, b in itertools.product(ODD, repeat=2):
        for kind in ("factory", "none"):
            x, r = start(kind)
            h = [("set", a, "s"), ("set", b, "l"), ("get", a), ("in", b), ("getm", b.upper()), ("sd", a.lower(), "d"), ("upd", "dict", [(b, "i")]), ("upd", "kw", [(a, "d")]), ("upd", "pairs", [(b, "s"), (a.upper(), "l")]), ("copy",), ("deep",), ("pickle", 2), ("newp",), ("popd", b.upper()), ("pop", a), ("get", b), ("del", b)]
            for o in h:
                if o[0] == "newp" and any(k.upper().lower() != k for k in r.m):
                    continue
                x, r, u, v = op(o, x, r)
                acc.trans()
                if u != v or norm(x) != norm(r):
                    acc.fail("odd|%s|%r|%r|%r" % (kind, a, b, o), "%r: %r %r, reference %r %r" % (o, u, norm(x), v, norm(r)))
                    break
            acc.trace()
            acc.state(norm(r))


def auto(acc):
    """reading missing keys"""
    for kind in KINDS:
        for k in LISTS + ("web", "legend", "metadata", "projection", "leader", "x", "layer", "class", "points"):
            for s in SPELL(k):
                x, r = start(kind)
                y, _ = start(kind)
                acc.trans(6)
                acc.trace()
                if kind == "none":
                    try:
                        v = x[s]
                        acc.fail("auto|%s|%s" % (kind, s), "no KeyError but %r" % (v,))
                    except KeyError:
                        if len(x):
                            acc.fail("auto|%s|%s" % (kind, s), "KeyError but the key is stored")
                    continue
                v = x[s]
                if k in LISTS:
                    ok = v == [] and type(v) is list
                    v.append({"__type__": "x"})
                    ok = ok and x[k] is v and x[k.upper()] is v and len(x[s]) == 1 and list(x) == [k] and y[s] == [] and y[s] is not v
                    z, _ = start(kind)
                    ok = ok and z[s] == []
                else:
                    ok = type(v) is cid() and not len(v)
                    v["Inner"] = 1
                    ok = ok and x[k] is v and x[s]["INNER"] == 1 and list(x) == [k] and list(v) == ["inner"] and not len(y[s]) and y[s] is not v
                if not ok:
                    acc.fail("auto|%s|%s" % (kind, s), "reading the missing key gives %r, then %r" % (v, norm(x)))
                acc.state((kind, k))
    for bad in (1, "x", [], {}):
        try:
            cid()(bad)
            acc.fail("auto|not callable|%r" % (bad,), "accepted as a default factory")
        except TypeError:
            pass
    from mappyfile.ordereddict import DefaultOrderedDict
    for fac in (list, dict, lambda: "dflt", lambda: cid()(cid())):
        x = cid()(fac)
        acc.trans()
        for s in ("ABC", "Web"):
            if x[s] != fac() or x[s] is not x[s.lower()] or x["LAYERS"] != []:
                acc.fail("auto|factory|%s" % s, "%r" % (x[s],))
    if len(fac()["Layers"]) or list(fac()["LAYERS"]) != []:
        acc.fail("auto|nested", "nested")


# ---------------------------------------------------------------- loaded documents
def walk(x, path, out):
    if isinstance(x, dict):
        out.append((path, x))
        for k, v in x.items():
            if k not in ("__comments__", "__position__", "__tokens__"):
                walk(v, path + (k,), out)
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            walk(v, path + (i,), out)
    return out


def at(x, path):
    for p in path:
        x = x[p]
    return x


def to_ref(x):
    """a reference with the same content (values shared)"""
    r = Ref(x.default_factory is not None)
    for k, v in collections.OrderedDict.items(x):
        r.m[k] = v
    return r



def loaded(text, lab, acc, **kw):
    r = impl.attempt(lambda t: impl.loads_auto(t, **kw), text)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted")
        return
    root = r[1]
    printed = impl.attempt(impl.dumps, root)
    for path, x in walk(root, (), []):
        sig = "doc|%s|%r" % (lab, path)
        if type(x) is not cid() or x.default_factory is None:
            acc.fail(sig, "a %s" % type(x).__name__, text=text)
            return
        keys = list(x.keys())
        if any(k != k.lower() for k in keys) or len(set(keys)) != len(keys):
            acc.fail(sig, "keys %r" % keys, text=text)
            return
        bad = look(x, to_ref(x), ())
        acc.trans()
        if bad:
            acc.fail(sig, bad, text=text)
            return
        acc.state((lab, path))
        for c in COPIES:
            y, s, a, b = op(c, x, to_ref(x))
            acc.trans()
            acc.trace()
            if a != b or y != x or norm(y) != norm(x) or type(y) is not type(x) or y.default_factory is not x.default_factory:
                acc.fail(sig + "|%r" % (c,), "copy: %r %s" % (a, norm(y)), text=text)
                return
            if c[0] in ("deep", "pickle"):
                sh = set(mutables(x)) & set(mutables(y))
                if sh:
                    acc.fail(sig + "|%r" % (c,), "shares %d objects" % len(sh), text=text)
                    return
            if not path:
                p = impl.attempt(impl.dumps, y)
                if p != printed and (p[0] == "ok" or printed[0] == "ok"):
                    acc.fail(sig + "|%r|print" % (c,), "the copy prints %s, the original %s" % (str(p)[:500], str(printed)[:500]), text=text)
                    return
            # change the copy everywhere, then look at the original
            before = norm(x)
            for k in list(y):
                if k in ("__comments__", "__position__"):
                    continue
                if c[0] in ("deep", "pickle"):
                    for q, z in walk(y[k], (), []):
                        z["NEW"] = 1
                        z["Layers"].append(1)
                    if isinstance(y[k], list):
                        y[k].append("z")
                y[k.upper()] = 0
            y["NEW"] = 1
            del y["new"]
            y.update({k.upper(): 3 for k in keys})
            if norm(x) != before:
                acc.fail(sig + "|%r|change" % (c,), "changing the copy has changed the original to %s" % (norm(x),), text=text)
                return
            if list(y) != keys or any(y[k] != 3 for k in keys):
                acc.fail(sig + "|%r|update" % (c,), "updated copy: %r" % (norm(y),), text=text)
                return
    # operations on the loaded dictionary itself
    for path, _ in walk(root, (), []):
        x = copy.deepcopy(at(root, path))
        for k in list(x):
            r = to_ref(x)
            for o in (("sd", k.upper(), "s"), ("set", k.capitalize(), "l"), ("upd", "pairs", [(k.upper(), "d"), ("Other", "s")]), ("popd", k.upper()), ("set", k.upper(), "s"), ("get", k.capitalize()), ("del", k.upper()), ("in", k), ("get", "Layers"), ("nest", "WEB"), ("pop", "OTHER")):
                _, _, a, b = op(o, x, r)
                acc.trans()
                if a != b or norm(x) != norm(r):
                    acc.fail("doc|%s|%r|%r" % (lab, path, o), "%r: %r, reference %r" % (o, a, b), text=text)
                    return
            acc.trace()


def lines_of(doc):
    toks = D.tokens(doc)
    return [D.assemble(toks, D.default_seps(toks))[0]]


# ---------------------------------------------------------------- cases
def cases(tier):
    th = tier == "thorough"
    cid()
    impl.warm()
    out = []
    for kind in KINDS:
        g = grown(kind)
        for i in range(0, len(g), 4):
            out.append(("state", (kind, i, 4, th)))
    for kind in KINDS:
        t = 3 if th else 2
        for p in itertools.product(range(len(mid_ops())), repeat=2 if th else 1):
            if kind == "factory" or th:
                out.append(("hist", (kind, "mid", p, 4 if kind == "factory" and th else 3)))
        for p in itertools.product(range(len(small_ops())), repeat=2):
            if kind == "factory" or kind == "none" and th:
                out.append(("hist", (kind, "small", p, 5 if th else 4)))
        for p in itertools.product(range(len(tiny_ops())), repeat=2):
            if kind == "factory" or kind == "none" and th:
                out.append(("hist", (kind, "tiny", p, (6 if kind == "none" else 7) if th else 5)))
    for f in [s for k in KEYS for s in SPELL(k)[:2]]:
        out.append(("build", (f, 4 if th else 3)))
    out += [("odd", 0), ("auto", 0)]
    for i in range(len(O.core())):
        out.append(("core", i))
    for f in space.corpus():
        out.append(("corpus", f))
    return out


def step(group, case, acc):
    if group == "state":
        kind, i, n, th = case
        ops = full_ops(2 if th else 1)
        for h in grown(kind)[i:i + n]:
            state(kind, h, acc, ops, th)
        acc.sample("%s %r" % (kind, h))
    elif group == "hist":
        kind, alpha, p, depth = case
        ops = {"mid": mid_ops, "small": small_ops, "tiny": tiny_ops}[alpha]()
        histories(kind, tuple(ops[i] for i in p), ops, depth, acc)
        acc.sample("%s %r" % (kind, [ops[i] for i in p]))
    elif group == "build":
        build(case[1], case[0], acc)
        acc.sample(case[0])
    elif group == "odd":
        odd(acc)
    elif group == "auto":
        auto(acc)
    elif group == "core":
        l, d = O.core()[case]
        text = "\n".join(lines_of(d))
        loaded(text, l, acc)
        loaded(text, l + " comments", acc, comments=True)
        acc.sample(l)
    elif group == "corpus":
        loaded(open(os.path.join(impl.REPO, case), encoding="utf-8", errors="replace").read(), case, acc)
        acc.sample(case)
