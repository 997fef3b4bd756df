"""C07: validate reports exactly the keywords and objects which violate the published schema."""
from __future__ import annotations
import copy, itertools, os
from . import impl, space, options as O, doc as D, vocab as V, draft4, roundtrip as R
from .vocab import S, W

PROP = "C07"
BOUNDS = {"quick": "every loaded document of groups A-G, X and the corpus; every keyword slot x 60 values; every object of a 45-object nested document x every faulty value class of every "
                   "slot, unknown and missing keywords, all pairs over ~200 fault sites; every containment path x single faults; up to 130 objects (260-1030 thorough) with faults in all, one, half, all but one, the last three; all ordered pairs of roots; "
                   "letter-case and hidden-key variants; create() for all types x versions",
          "thorough": "as quick with all value samples, and all triples over ~70 fault sites"}
ASSUMPTIONS = ["the oracle is an independent draft 4 interpreter (mc/draft4.py) over the schemas frozen at the pinned commit (spec/schemas)",
               "hidden keys in the alphabet match the schemas' own pattern __letters__",
               "for errors inside CONFIG naming either CONFIG or the inner key is accepted"]
HEAVY = ("pairs", "triples")
VERSIONS = (None, 4.0, 5.6, 6.4, 7.0, 7.6, 8.0)

CANDS = ["plain", "", " on", "auto ", "\n", "7", "on", "off", "true", "a b", "#aabbcc", "#aabbccdd", "#abc", "#12345", "[x]", "(x)", "([a] = 1)", "/x/", "/x/i", "&#123;", "auto", "POINT", "Polygon", "end", "default", "HILITE", "c", "CC",
         0, 1, -1, 7, 256, 255, 100, 101, 360, 361, -361, 1.0, 1.5, -0.5, 1e9, 123456789012, True, False, None,
         [], [1], [1, 2], [1.5, 2], [1, 2, 3], [1, 2, 300], [0, 0, 256], [-1, -1, -1], [1.5, 2, 3], [1, 2, 3, 4], [1, "[x]"], ["[x]", "[y]"], ["a"], ["a", "b"], [1, 2, 3, 4, 5, 6], ["#aabbcc", "#00ff00"],
         [[1, 2]], [[1, 2], [3, 4]], [[1]], [[1, 2, 3]], [[[1, 2]]], [["a", 1]], {}, {"a": "b"}, {"a": 1}, [{}], [{"__type__": "style"}], {"__type__": "class", "name": "x"}, {"__type__": "web", "foo": 1}, [None], [[]],
         1e308, [True, False], ["", ""]]

NESTED = """MAP NAME 'm' EXTENT 0 0 1 1 SIZE 10 10 CONFIG 'MS_ERRORFILE' 'stderr' PROJECTION 'init=epsg:4326' END
 OUTPUTFORMAT NAME 'png' DRIVER 'AGG/PNG' FORMATOPTION 'A=1' END OUTPUTFORMAT NAME 'j' END
 SYMBOL NAME 's' TYPE ELLIPSE POINTS 1 1 END END SYMBOL NAME 's2' TYPE VECTOR POINTS 1 1 2 2 END END
 WEB TEMPLATE 't' METADATA 'a' 'b' END VALIDATION 'k' 'v' END END
 LEGEND STATUS ON LABEL SIZE 8 STYLE COLOR 1 2 3 END END END
 SCALEBAR STATUS ON LABEL SIZE 8 END END QUERYMAP STATUS ON STYLE HILITE END REFERENCE STATUS ON IMAGE 'x.png' END
 LAYER NAME 'l0' TYPE POINT END
 LAYER NAME 'l1' TYPE LINE STATUS ON PROCESSING 'X=1' METADATA 'a' 'b' END PROJECTION AUTO END
  CLUSTER MAXDISTANCE 5 END COMPOSITE OPACITY 50 END COMPOSITE OPACITY 60 END
  FEATURE POINTS 1 1 END TEXT 'x' END FEATURE POINTS 1 1 2 2 END POINTS 3 3 END END
  GRID LABELFORMAT 'DD' END JOIN NAME 'j' TABLE 't' FROM 'a' TO 'b' END JOIN NAME 'k' END SCALETOKEN NAME '%a%' VALUES '0' 'x' END END
  CLASS NAME 'c0' END
  CLASS NAME 'c1' EXPRESSION ([a] = 1) STYLE COLOR 1 2 3 END STYLE WIDTH 2 PATTERN 1 2 3 4 END END
   LABEL SIZE 8 STYLE COLOR '#aabbcc' END STYLE SIZE 4 END END LABEL TEXT 'x' LEADER GRIDSTEP 5 STYLE WIDTH 1 END END END LEADER MAXDISTANCE 9 STYLE WIDTH 3 END END
   VALIDATION 'k' 'v' END END
  CLASS NAME 'c2' STYLE END END
 END
 LAYER TYPE RASTER CLASS STYLE END END END
END"""


def objects(d, path=()):
    """paths of all objects"""
    if isinstance(d, dict):
        if "__type__" in d and d["__type__"] in V.VOCAB:
            yield path
        for k, v in d.items():
            if not R.is_hidden(k) and isinstance(v, (dict, list)):
                yield from objects(v, path + (k,))
    elif isinstance(d, list):
        for i, v in enumerate(d):
            yield from objects(v, path + (i,))


def get(d, path):
    for p in path:
        d = d[p]
    return d


_faults = {}
MISSING = ("<missing>",)


def faults(t):
    """[(key, value)]: one value per slot and violated schema keyword; an unknown keyword; each required keyword missing"""
    if t not in _faults:
        out = []
        for k in V.slots(t):
            seen = set()
            for c in CANDS:
                j = {"__type__": t, k: c}
                if t == "layer" and k != "type":
                    j["type"] = "point"
                kinds = frozenset(kw for p, kw in draft4.errors(draft4.lower(j), draft4.load(t)))
                if kinds and kinds not in seen:
                    seen.add(kinds)
                    out.append((k, c))
        out += [("foo", 1), ("unknown_key", "x"), ("styles_", []), ("__x", 1)]
        out += [(k, MISSING) for k in V.VOCAB[t]["required"]]
        _faults[t] = out
    return _faults[t]


def few(t):
    """a few faults of different kinds per type"""
    fs, out, kinds = faults(t), [], set()
    for k, c in fs:
        j = {"__type__": t, "type": "point"} if t == "layer" else {"__type__": t}
        if c is not MISSING:
            j[k] = c
        else:
            j.pop(k, None)
        kind = (type(c).__name__ if not isinstance(c, (int, float)) else "n",) + tuple(sorted({kw for _, kw in draft4.errors(draft4.lower(j), draft4.load(t))}))
        if kind not in kinds and (k not in ("layers", "classes") or True):
            kinds.add(kind)
            out.append((k, c))
    return out


def sites(per):
    base = impl.loads(NESTED)
    out = []
    for p in objects(base):
        t = get(base, p)["__type__"]
        fs = few(t)
        pick = [f for f in fs if f[0] not in D.OBJECT_LIST_KEYS and f[0] not in D.SINGLE]
        chosen = [f for f in pick if f[0] == "foo"] + [f for f in pick if f[1] is MISSING] + [f for f in pick if f[0] != "foo" and f[1] is not MISSING]
        out += [(p, k, c) for k, c in chosen[:per]]
    return out


_base = {}


def base():
    if not _base:
        _base["d"] = impl.loads(NESTED)
        _base["sites5"], _base["sites2"] = sites(5), sites(2)
    return _base["d"]


def cases(tier):
    th = tier == "thorough"
    docs = space.documents("ABCDEFGX", th)
    out = list(docs) + space.public_subspace(docs) + [("H", f) for f in space.corpus()]
    for t in V.TYPES:
        for k in V.slots(t):
            out.append(("slot", (t, k)))
        for path in space.parents_paths(t, 4):
            out.append(("path", (path, t)))
        for v in VERSIONS:
            out.append(("create", (t, v)))
    impl.warm()
    base()
    for i, p in enumerate(list(objects(base()))):
        out.append(("single", i))
    n = len(_base["sites5"])
    out += [("pairs", i) for i in range(n)]
    if th:
        m = len(_base["sites2"])
        out += [("triples", (i, j)) for i in range(m) for j in range(i + 1, m)]
    out += [("variants", c) for c in O.core()] + [("roots", i) for i in range(len(root_alphabet()))]
    out += [("many", (kind, n)) for kind in MANY for n in ((2, 11, 33, 65, 130) if not th else (2, 11, 33, 65, 101, 130, 260, 520, 1030))]
    return out


# many objects, and as many faults: (object text, faulty item)
MANY = {"layer": ("MAP %s END", "LAYER NAME 'l' TYPE POINT END", "LAYER NAME 'l' TYPE foo END"),
        "class": ("LAYER NAME 'x' TYPE POINT %s END", "CLASS NAME 'c' END", "CLASS STATUS foo END"),
        "style": ("CLASS NAME 'x' %s END", "STYLE WIDTH 2 END", "STYLE OPACITY 101 END"),
        "points": ("SYMBOL NAME 'x' TYPE VECTOR %s END", "POINTS 1 1 END", "POINTS 1 1 END"),
        "feature": ("LAYER NAME 'x' TYPE POINT %s END", "FEATURE POINTS 1 1 END END", "FEATURE TEXT 5 FOO 1 END"),
        "depth": ("CLASS %s END", "LABEL STYLE WIDTH 1 END LEADER STYLE WIDTH 1 END END END", "LABEL STYLE OPACITY 'x' END LEADER STYLE OPACITY 101 END END END"),
        "root": ("%s", "STYLE WIDTH 2 END", "STYLE OPACITY 101 END"),
        "symbol": ("SYMBOLSET %s END", "SYMBOL NAME 's' TYPE ELLIPSE END", "SYMBOL NAME 's' TYPE foo END")}


def step_many(case, acc):
    kind, n = case
    outer, good, wrong = MANY[kind]
    sets = [set(), set(range(n)), {0}, {n - 1}, {n // 2}, set(range(0, n, 2)), set(range(n)) - {n - 1}, set(range(n - 3, n))]
    if n <= 33:
        sets += [{i} for i in range(n)]
    for st in sets:
        text = outer % " ".join(wrong if i in st else good for i in range(n))
        r = impl.attempt(impl.loads, text)
        acc.trans()
        if r[0] != "ok":
            acc.fail("many unreadable|%s %d" % (kind, n), r[1:])
            return
        acc.state((kind, n, tuple(sorted(st))))
        compare(r[1], acc, "many %s %d %s" % (kind, n, sorted(st)[:4]))
    acc.sample("%s %d" % case)


def names(msgs):
    return [m["message"].split("Invalid value in ", 1)[1] if "Invalid value in " in m.get("message", "") else repr(m) for m in msgs]


def compare(d, acc, sig, f=None, expected=None, **kw):
    r = impl.attempt(f or impl.validate, d)
    acc.trans()
    acc.trace()
    if r[0] != "ok":
        acc.fail("raised|" + sig, "%s: %s" % r[1:], **kw)
        return None
    roots = d if isinstance(d, list) else [d]
    exp = expected
    if exp is None:
        exp = set()
        for i, x in enumerate(roots):
            exp |= {((i,) + p, a, o) for p, a, o in draft4.verdict(x)}
    acc.outcome("conforming" if not exp else "violations")
    try:
        nm = names(r[1])
    except Exception as e:
        acc.fail("message|" + sig, "unexpected message format %r" % (r[1],), **kw)
        return None
    x = draft4.disagreement(exp, nm)
    if x:
        acc.fail("verdict|" + sig, x, messages=nm, **kw)
    return nm


def step(group, case, acc):
    globals().get("step_" + group, step_doc)(case, acc) if group not in ("H", "public") else step_doc(case, acc, group)


def step_doc(case, acc, group=None):
    if group == "H":
        lab, text = "corpus " + case, open(os.path.join(impl.REPO, case), encoding="utf-8").read()
        r = impl.attempt(impl.loads, text, expand=False)
    else:
        lab, text = case[0], D.render(case[1])
        r = impl.attempt(impl.loads_auto, text)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted by loads")
        return
    acc.state(D.canon(r[1]))
    compare(r[1], acc, lab, impl.pub.validate if group == "public" else None, text=text[:1500])
    acc.sample(text)


def step_slot(case, acc):
    t, k = case
    text = D.render([("block", t, [space.SIMPLE[t] if space.SIMPLE[t][1] != k else space.SIMPLE2[t]])])
    d = impl.loads(text)
    for c in CANDS:
        for other in (False, True):
            d2 = copy.deepcopy(d)
            d2[k] = copy.deepcopy(c)
            if other:  # the same in a plain dict, upper-case keys
                d2 = {a.upper() if not R.is_hidden(a) else a: b for a, b in d2.items()}
            acc.state(repr(d2))
            compare(d2, acc, "%s.%s=%r%s" % (t, k, c, " upper" if other else ""))
    acc.sample("%s.%s" % case)


def step_path(case, acc):
    path, t = case
    simple = ("block", t, [space.SIMPLE[t]])
    it = simple
    for p in reversed(path):
        it = ("block", p, ([space.SIMPLE[p]] if p != "symbolset" else []) + ([it] if it[1] in D.SINGLE else [("block", it[1], []), it]))
    d = impl.loads(D.render([it]))
    o = d
    for p in path[1:] + (t,):
        if path:
            o = o[p] if p in D.SINGLE else o[D.PLURAL[p]][1]
    if o["__type__"] != t:
        raise RuntimeError("path")
    for k, c in faults(t) + [("name_", 1)]:
        mutate(d, o, [(k, c)], acc, "%s %s=%r" % ("/".join(path + (t,)), k, c))
    acc.sample("/".join(path + (t,)))


def mutate(root, o, kvs, acc, sig):
    """apply, validate, undo"""
    saved = dict(o)
    try:
        for k, c in kvs:
            if c is MISSING:
                if k in o:
                    del o[k]
            else:
                o[k] = copy.deepcopy(c)
        compare(root, acc, sig)
    finally:
        for k in list(o.keys()):
            del o[k]
        for k, v in saved.items():
            o[k] = v


def step_single(case, acc):
    d = base()
    p = list(objects(d))[case]
    o = get(d, p)
    for k, c in faults(o["__type__"]):
        sig = "nested %s %s=%r" % ("/".join(map(str, p)), k, c)
        acc.state(sig)
        mutate(d, o, [(k, c)], acc, sig)
    acc.sample("/".join(map(str, p)))


def apply_all(d, sts, acc, sig):
    saved = []
    try:
        for p, k, c in sts:
            o = get(d, p)
            saved.append((o, list(o.items())))
            if c is MISSING:
                if k in o:
                    del o[k]
            else:
                o[k] = copy.deepcopy(c)
        acc.state(sig)
        compare(d, acc, sig)
    finally:
        for o, items in reversed(saved):
            for k in list(o.keys()):
                del o[k]
            for k, v in items:
                o[k] = v


def step_pairs(case, acc):
    d = base()
    st = _base["sites5"]
    for j in range(case + 1, len(st)):
        a, b = st[case], st[j]
        apply_all(d, (a, b), acc, "pair %r %r" % (a, b))
    acc.sample(repr(st[case]))


def step_triples(case, acc):
    d = base()
    st = _base["sites2"]
    i, j = case
    for k in range(j + 1, len(st)):
        apply_all(d, (st[i], st[j], st[k]), acc, "triple %r" % ([st[i], st[j], st[k]],))
    acc.sample(repr((st[i], st[j])))


def step_create(case, acc):
    t, v = case
    r = impl.attempt(impl.pub.create, t, v) if v is not None else impl.attempt(impl.pub.create, t)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("create raised (C19)")
        return
    compare(r[1], acc, "create %s %s" % case)
    compare(r[1], acc, "public create %s %s" % case, impl.pub.validate)


# ------------------------------------------------------------------ variants with the same verdict
def mapvals(x, fk, fv):
    if isinstance(x, dict):
        return {k if R.is_hidden(k) else fk(k): (mapvals(v, fk, fv) if k != "__type__" else v) for k, v in x.items()}
    if isinstance(x, list):
        return [mapvals(v, fk, fv) for v in x]
    return fv(x) if isinstance(x, str) else x


def with_hidden(x):
    if isinstance(x, dict):
        out = {"__first__": ["x", {"y": None}]}
        out.update({k: with_hidden(v) for k, v in x.items()})
        out["__last__"] = 1
        return out
    return [with_hidden(v) for v in x] if isinstance(x, list) else x


def step_variants(case, acc):
    lab, doc = case
    text = D.render(doc)
    for bad in (False, True):
        r = impl.attempt(impl.loads_auto, text)
        if r[0] != "ok":
            return
        d = r[1]
        if bad:
            o = d[0] if isinstance(d, list) else d
            if o["__type__"] not in V.VOCAB:
                return
            o["foo_bar"] = "X"
            o["name_"] = [1, 2]
        nm = compare(d, acc, lab + (" bad" if bad else ""), text=text)
        if nm is None:
            continue
        ident = lambda s: s
        hid = {}
        vs = {"upper keys": mapvals(d, str.upper, ident), "upper values": mapvals(d, ident, str.upper), "title": mapvals(d, str.title, str.title), "plain": mapvals(d, ident, ident),
              "hidden": with_hidden(d)}
        if not bad:
            for c, p in ((False, True), (True, False), (True, True)):
                x = impl.attempt(impl.loads, text, comments=c, position=p, expand="include" not in text.lower())
                if x[0] == "ok":
                    vs["loaded comments=%s position=%s" % (c, p)] = x[1]
        for name, x in vs.items():
            y = impl.attempt(impl.validate, x)
            acc.trans()
            acc.trace()
            if y[0] != "ok":
                acc.fail("raised|%s %s" % (lab, name), "%s: %s" % y[1:], text=text)
            elif sorted(names(y[1])) != sorted(nm):
                acc.fail("variant|%s %s bad=%s" % (lab, name, bad), "verdict changes: %r vs %r" % (sorted(nm), sorted(names(y[1]))), text=text)
    acc.sample(text)


def root_alphabet():
    out = []
    for r in space.roots() + [("block", "symbolset", [space.SIMPLE["symbolset"]])]:
        out.append((D.render([r]), None))
        if r[0] == "block":
            out.append((D.render([r]), ("foo", 1)))
            f = next(f for f in faults(r[1]) if f[1] is not MISSING and f[0] not in ("foo",))
            out.append((D.render([r]), f))
    return out


def step_roots(case, acc):
    al = root_alphabet()

    def make(i):
        d = impl.loads(al[i][0])
        if al[i][1]:
            d[al[i][1][0]] = copy.deepcopy(al[i][1][1])
        return d

    one = [impl.attempt(impl.validate, make(i)) for i in range(len(al))]
    for j in range(len(al)):
        for combo in ((case, j), (case, j, case)):
            r = impl.attempt(impl.validate, [make(i) for i in combo])
            acc.trans()
            acc.trace()
            exp = [m for i in combo for m in one[i][1]] if all(one[i][0] == "ok" for i in combo) else None
            if r[0] != "ok" or exp is None:
                acc.fail("roots raised|%r" % (combo,), r[1:])
            elif sorted(map(repr, r[1])) != sorted(map(repr, exp)):
                acc.fail("roots|%r" % ([al[i] for i in combo],), "the list gives %r, one by one %r" % (names(r[1]), names(exp)))
    acc.sample(al[case][0])
