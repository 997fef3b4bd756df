"""C03: an independent reader of the printed text finds exactly the dictionary, each value in its lexical class.

Two explored spaces: (1) every document of mc/space.py, printed from the loaded dictionary, from a plain
dict with the same content, and every create() object; (2) every sequence of dict-API edits up to a depth
applied to base dictionaries and, in lock-step, to a plain-dict model; (3) every slot x every value which
has no Mapfile text, which dumps has to refuse.
"""
from __future__ import annotations
import copy, itertools, math, os
from collections import OrderedDict
from . import impl, space, doc as D, reader, lex, roundtrip as R, vocab as V
from .vocab import S, W

PROP = "C03"
HEAVY = ("edit",)
BOUNDS = {"quick": "document groups A-G, K, X of mc/space.py and the corpus files; create() for all types x 6 versions; all edit sequences of length <= 2 over "
                   "84/24/8/12 edits on 4 base dictionaries; all slots x 17 unprintable values and x 17 scalars (empty, zero, large) put there by hand",
          "thorough": "as quick with all value samples, and edit sequences of length <= 3 (third edit on the 84-edit map base: the structural ones only)"}
ASSUMPTIONS = ["strings containing the output quote are outside the guarantee", "value and edit alphabets are finite",
               "the reader (mc/reader.py) is independent of mappyfile and validated against the corpus in C02"]
VERSIONS = (None, 4.0, 5.6, 6.4, 7.0, 7.6, 8.0)

# ------------------------------------------------------------------ edit histories
BASES = {
    "map": [("block", "map", [("attr", "name", S("m")), ("attr", "size", ("list", [("int", "10"), ("int", "20")])), ("config", S("A"), S("1")),
                              ("block", "web", [("attr", "template", S("t")), ("kv", "metadata", [(S("a"), S("b"))])]),
                              ("block", "layer", [("attr", "name", S("l1")), ("attr", "type", W("POINT")), ("rep", "processing", S("A=1")),
                                                  ("kv", "metadata", [(S("k"), S("v"))]), ("proj", [S("init=epsg:4326")]),
                                                  ("block", "class", [("attr", "name", S("c1")), ("attr", "expression", ("expr", "( [a] > 1 )")),
                                                                      ("block", "style", [("attr", "color", ("list", [("int", "1"), ("int", "2"), ("int", "3")]))]),
                                                                      ("block", "label", [("attr", "text", S("x"))])]),
                                                  ("block", "class", [("attr", "name", S("c2"))])]),
                              ("block", "layer", [("attr", "name", S("l2")), ("attr", "type", W("LINE"))])])],
    "layer": [("block", "layer", [("attr", "type", W("POLYGON")), ("attr", "name", S("l")), ("block", "class", [("block", "style", [("attr", "width", ("int", "2"))])]),
                                  ("block", "feature", [("points", [("1", "2"), ("3", "4")])])])],
    "roots": [("block", "class", [("attr", "name", S("a"))]), ("block", "style", [("attr", "symbol", S("s")), ("pattern", [("1", "2")])])],
    "symbolset": [("block", "symbolset", [("block", "symbol", [("attr", "name", S("s1")), ("attr", "type", W("VECTOR")), ("points", [("1", "1")])])])],
}


class Impl:
    """dict API of the code under test"""
    real = True

    def snippet(self, text):
        return impl.pub_loads(text)

    def setk(self, d, k, v):
        d[k] = copy.deepcopy(v)

    def delk(self, d, k):
        del d[k]

    def get(self, d, k):
        return d[k]

    def update(self, d, patch):
        impl.pub.update(d, copy.deepcopy(patch))


class Model:
    """the same on plain dictionaries with lower-case keys"""
    real = False

    def snippet(self, text):
        return D.expected(reader.read(text))

    def setk(self, d, k, v):
        d[k.lower()] = copy.deepcopy(v)

    def delk(self, d, k):
        del d[k.lower()]

    def get(self, d, k):
        k = k.lower()
        if k not in d:
            d[k] = [] if k in D.OBJECT_LIST_KEYS else {}
        return d[k]

    def update(self, d, patch):
        for k, v in patch.items():
            if v == "__delete__":
                d.pop(k, None)
            elif isinstance(v, dict):
                self.update(d.setdefault(k, {}), v)
            elif isinstance(v, list) and v and all(isinstance(x, dict) for x in v):
                for i, x in enumerate(v):
                    self.update(d[k][i], x)
            else:
                d[k] = copy.deepcopy(v)


def at(*path):
    def f(api, o):
        for p in path:
            if isinstance(p, int):
                o = o[p]
            elif isinstance(o, list) or p.lower() not in o:
                raise Skip()
            else:
                o = api.get(o, p)
        return o
    return f


class Skip(Exception):
    pass


def E(name, where, fn):
    def run(api, o):
        try:
            tgt = where(api, o)
        except (IndexError, KeyError, TypeError, AttributeError):
            raise Skip()
        if not isinstance(tgt, (dict, list)):
            raise Skip()
        return fn(api, tgt)
    return (name, run)


def setter(k, v):
    return lambda api, d: api.setk(d, k, v)


def edits(base):
    L = []
    add = lambda n, w, f: L.append(E(n, at(*w), f))
    if base == "map":
        m, l1, c1, st, lab = (), ("LAYERS", 0), ("layers", 0, "Classes", 0), ("layers", 0, "classes", 0, "styles", 0), ("layers", 0, "classes", 0, "labels", 0)
        for k, v in (("NAME", "new name"), ("Extent", [0, 0, 1.5, 20]), ("units", "meters"), ("imagecolor", "#aabbcc"), ("imagecolor", [255, 0, 1]), ("Debug", 5), ("status", "off"),
                     ("symbolset", "../s.sym"), ("__hidden__", "secret"), ("config", {"ms_errorfile": "stderr"}), ("projection", ["init=epsg:3857"]), ("projection", ["AUTO"]),
                     ("projection", "init=epsg:27700"), ("layers", []), ("maxsize", 4096), ("angle", -0.5)):
            add("map.%s=%r" % (k, v), m, setter(k, v))
        for k in ("name", "SIZE", "config", "web", "layers"):
            add("del map.%s" % k, m, lambda api, d, k=k: api.delk(d, k) if k.lower() in d else skip())
        add("read map.foo", m, lambda api, d: api.get(d, "foo"))
        add("read map.symbols", m, lambda api, d: api.get(d, "Symbols"))
        add("read map.outputformats", m, lambda api, d: api.get(d, "outputformats"))
        add("map.web=snippet", m, lambda api, d: api.setk(d, "WEB", api.snippet("WEB TEMPLATE 'x y' METADATA 'wms_title' 'T' END END")))
        add("map.legend=snippet", m, lambda api, d: api.setk(d, "legend", api.snippet("LEGEND STATUS ON LABEL COLOR 1 2 3 END END")))
        add("insert layer 0", ("layers",), lambda api, o: o.insert(0, api.snippet("LAYER NAME 'ins' TYPE RASTER DATA 'a.tif' END")))
        add("append layer", ("layers",), lambda api, o: o.append(api.snippet("LAYER NAME 'app' TYPE POINT FEATURE POINTS 1 1 END END END")))
        add("reverse layers", ("layers",), lambda api, o: o.reverse())
        add("pop layer", ("layers",), lambda api, o: o.pop() if o else skip())
        add("pop layer 0", ("layers",), lambda api, o: o.pop(0) if o else skip())
        add("web.metadata.x", ("web", "metadata"), setter("WMS_Title", "a title"))
        add("web.metadata.a=7", ("web", "metadata"), setter("a", 7))
        add("web.metadata.del a", ("web", "metadata"), lambda api, d: api.delk(d, "A") if "a" in d else skip())
        add("web.read validation", ("web",), lambda api, d: api.get(d, "validation"))
        add("web.validation={}", ("web",), setter("validation", {"k": "^x$"}))
        for k, v in (("type", "polygon"), ("NAME", "it's"), ("status", "ON"), ("status", "default"), ("data", "the_geom from t using unique id"), ("filter", "([a] = 'x')"),
                     ("filter", "/^a/"), ("processing", ["X=1", "Y=2"]), ("Processing", "BANDS=1"), ("transform", True), ("transform", "ll"), ("minscaledenom", 1000), ("maxscaledenom", 2.5e6),
                     ("connectiontype", "postgis"), ("classitem", "a"), ("group", 7), ("extent", (1, 2, 3, 4)), ("geomtransform", "(buffer([shape],2))")):
            add("layer.%s=%r" % (k, v), l1, setter(k, v))
        add("layer.processing.append", l1 + ("processing",), lambda api, o: o.append("B=2") if isinstance(o, list) else skip())
        add("layer.read processing", l1, lambda api, d: api.get(d, "processing"))
        add("layer.read foo", l1, lambda api, d: api.get(d, "name_") )
        add("layer.update", m, lambda api, d: api.update(d, {"name": "upd", "layers": [{"name": "u1", "status": "off"}]}) if d.get("layers") else skip())
        add("update delete", m, lambda api, d: api.update(d, {"size": "__delete__", "web": {"template": "__delete__", "footer": "f"}}) if "web" in d else skip())
        for k, v in (("expression", "([a] > 2)"), ("expression", "/^re/i"), ("expression", "lit eral"), ("expression", "{a,b}"), ("EXPRESSION", "NOT ( [a] = 1 )"), ("text", "[a]-[b]"),
                     ("Name", "2.5")):
            add("class.%s=%r" % (k, v), c1, setter(k, v))
        add("swap classes", ("layers", 0, "classes"), lambda api, o: o.insert(0, o.pop()) if o else skip())
        for k, v in (("color", [1, 2, 255]), ("Color", "#ff0000"), ("color", "[attr]"), ("symbol", "circle"), ("size", 7), ("size", "[sz]"), ("pattern", [[1, 2], [3, 4.5]]), ("offset", [1, -99]),
                     ("linecap", "round"), ("opacity", 50)):
            add("style.%s=%r" % (k, v), st, setter(k, v))
        add("append style", ("layers", 0, "classes", 0, "styles"), lambda api, o: o.append(api.snippet("STYLE SYMBOL 'c' PATTERN 1 2 END END")))
        for k, v in (("angle", "auto"), ("position", "cc"), ("font", "arial"), ("shadowsize", [1, "[s]"]), ("text", "('a' + [b])"), ("wrap", "x")):
            add("label.%s=%r" % (k, v), lab, setter(k, v))
    elif base == "layer":
        for k, v in (("features", []), ("NAME", "z"), ("type", "line"), ("metadata", {"a": "b"}), ("metadata", {}), ("validation", {"q": ".*", "default_q": "1"}), ("__a__", 1), ("include", ["x.map"])):
            add("layer.%s=%r" % (k, v), (), setter(k, v))
        add("feature.points", ("features", 0), setter("points", [[[1, 2]], [[3, 4], [5, 6.5]]]))
        add("feature.points append", ("features", 0, "points"), lambda api, o: o.append([9, 9]) if o and not isinstance(o[0][0], list) else skip())
        add("feature add", ("features",), lambda api, o: o.append(api.snippet("FEATURE TEXT 'x' POINTS 1 2 END POINTS 3 4 END END")))
        add("feature del points", ("features", 0), lambda api, d: api.delk(d, "POINTS") if "points" in d else skip())
        add("read joins", (), lambda api, d: api.get(d, "joins"))
        add("read cluster", (), lambda api, d: api.get(d, "cluster"))
        add("cluster=", (), lambda api, d: api.setk(d, "cluster", api.snippet("CLUSTER MAXDISTANCE 5 FILTER ( [a] = 1 ) END")))
        add("grid=", (), lambda api, d: api.setk(d, "grid", api.snippet("GRID LABELFORMAT 'DD' END")))
        add("scaletokens", (), lambda api, d: api.setk(d, "scaletokens", [api.snippet("SCALETOKEN NAME '%p%' VALUES '0' 'a' '10' 'b' END END")]))
        add("composites", (), lambda api, d: api.setk(d, "composites", [api.snippet("COMPOSITE OPACITY 50 COMPFILTER 'blur(3)' END")]))
        add("joins", (), lambda api, d: api.setk(d, "joins", [api.snippet("JOIN NAME 'j' TYPE ONE-TO-ONE END")]))
        add("class insert", ("classes",), lambda api, o: o.insert(0, api.snippet("CLASS LEADER MAXDISTANCE 3 STYLE WIDTH 1 END END END")))
        add("classes=tuple", (), lambda api, d: api.setk(d, "classes", [api.snippet("CLASS NAME 'n' END"), api.snippet("CLASS SYMBOL 'q' SIZE 4 END")]))
        add("del classes", (), lambda api, d: api.delk(d, "Classes") if "classes" in d else skip())
        add("update new", (), lambda api, d: api.update(d, {"opacity": 5, "name": "__delete__"}))
        add("class.read foo", ("classes", 0), lambda api, d: api.get(d, "foo"))
    elif base == "roots":
        add("append root", (), lambda api, o: o.append(api.snippet("LABEL COLOR 1 2 3 END")))
        add("insert root", (), lambda api, o: o.insert(0, api.snippet("METADATA 'a' 'b' END")))
        add("reverse", (), lambda api, o: o.reverse())
        add("pop", (), lambda api, o: o.pop() if len(o) > 1 else skip())
        for i in (0, 1):
            add("root%d.name" % i, (i,), lambda api, d: api.setk(d, "symbol", "new") if d.get("__type__") in ("class", "style") else skip())
            add("root%d read" % i, (i,), lambda api, d: api.get(d, "foo"))
    elif base == "symbolset":
        for k, v in (("name", "N"), ("type", "ellipse"), ("points", [[0, 0], [1, 1.5]]), ("filled", True), ("anchorpoint", [0.5, 0.5]), ("character", "&#10140;"), ("image", "a/b.png"), ("transparent", 0)):
            add("sym.%s=%r" % (k, v), ("symbols", 0), setter(k, v))
        add("sym del points", ("symbols", 0), lambda api, d: api.delk(d, "points") if "points" in d else skip())
        add("append sym", ("symbols",), lambda api, o: o.append(api.snippet("SYMBOL NAME 'q' TYPE HATCH END")))
        add("reverse", ("symbols",), lambda api, o: o.reverse())
        add("pop", ("symbols",), lambda api, o: o.pop() if o else skip())
    return L


def skip():
    raise Skip()


_ed = {b: edits(b) for b in BASES}


def empty_autos(x):
    """is there an empty dict without __type__ that is not a key-value block (has no Mapfile text)?"""
    if isinstance(x, list):
        return any(empty_autos(v) for v in x)
    if isinstance(x, dict):
        for k, v in x.items():
            if isinstance(v, dict) and not v and k not in D.KV_TYPES and k != "config":
                return True
            if isinstance(v, (dict, list)) and empty_autos(v):
                return True
    return False


def norm(x, inner=False):
    """model dictionary as the text shows it: hidden keys, empty lists and empty key-value dicts dropped or completed"""
    if isinstance(x, dict):
        out = {}
        inner = inner or x.get("__type__") in D.KV_TYPES
        for k, v in x.items():
            if R.is_hidden(k) and k != "__type__":
                continue
            if inner:
                out[k] = v
                continue
            if k in D.OBJECT_LIST_KEYS and isinstance(v, list) and not v:
                continue
            if k in D.KV_TYPES and isinstance(v, dict):
                out[k] = {a: b for a, b in v.items() if not R.is_hidden(a)}
                out[k]["__type__"] = k
                continue
            if k in D.REPEATED and isinstance(v, list) and not v:
                continue
            if k in D.REPEATED and isinstance(v, str):
                v = [v]
            if k == "projection" and isinstance(v, str):
                v = [v]
            if k == "config" and isinstance(v, dict) and not v:
                continue
            out[k] = norm(v, k == "config")
        return out
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def cases(tier):
    th = tier == "thorough"
    docs = space.documents("ABCDEFGKX", th)
    if not th:
        docs = [(g, c) for g, c in docs if g != "A" or c[0].endswith(("@only", "@mid"))]
    out = list(docs) + space.public_subspace(docs) + [("H", f) for f in space.corpus()]
    for t in V.TYPES:
        for v in VERSIONS:
            out.append(("create", (t, v)))
    depth = 3 if th else 2
    for b in BASES:
        for i in range(len(_ed[b])):  # the first edit is fixed per case; the others are enumerated inside
            out.append(("edit", (b, i, depth)))
    for t in V.TYPES:
        for k in V.slots(t):
            out.append(("unprintable", (t, k)))
            out.append(("plain", (t, k)))
    impl.warm()
    return out


def compare(d, acc, sig, dm=None, model=None):
    """dumps(d), read independently, against model (a plain dict) or d itself"""
    w = impl.attempt(dm or impl.dumps, d)
    acc.trans()
    if w[0] != "ok":
        acc.fail("dumps raised|" + sig, "%s: %s" % w[1:])
        return None
    text = w[1]
    acc.trace()
    try:
        ast = reader.read(text)
    except reader.ReadError as e:
        acc.fail("unreadable|" + sig, "the independent reader rejects the text: %s" % e, printed=text)
        return text
    if isinstance(model if model is not None else d, list) and len(ast) == 1:
        model = list(model if model is not None else d)[0]
    x = R.diff(norm(model if model is not None else d), D.expected(ast)) if ast else "nothing printed"
    if x:
        x2 = kv_numbers(norm(model if model is not None else d), D.expected(ast))
        if x2:
            acc.fail("content|" + sig, "text does not say what the dictionary says at " + x2, printed=text)
    p = lex.check_doc(ast)
    if p:
        acc.fail("lexical|" + sig, p, printed=text)
    if "__" in text and any(ln.split()[:1] and R.is_hidden(ln.split()[0].lower()) for ln in text.splitlines()):
        acc.fail("hidden|" + sig, "a hidden key is printed", printed=text)
    return text


def kv_numbers(a, b):
    """numbers stored in key-value blocks, PROCESSING, PROJECTION and CONFIG are written as quoted strings"""
    def conv(x, key=None):
        if isinstance(x, dict):
            kv = x.get("__type__") in D.KV_TYPES or key == "config"
            return {k: (str(v) if kv and isinstance(v, (int, float)) else conv(v, k)) for k, v in x.items()}
        if isinstance(x, list):
            if key in D.REPEATED + ("projection",):
                return [str(v) for v in x]
            return [conv(v) for v in x]
        return x
    return R.diff(conv(a), b)


BAD = [("{}", {}), ("{'a':1}", {"a": 1}), ("None", None), ("object", object()), ("set", {1}), ("bytes", b"x"), ("nan", math.nan), ("inf", math.inf), ("-inf", -math.inf),
       ("[]", []), ("[{}]", [{}]), ("[None]", [None]), ("[[1]]", [[1]]), ("[1,{}]", [1, {}]), ("[object]", [object()]), ("[nan]", [1, math.nan]), ("type", int)]


def unprintable(t, k, acc):
    kd = V.slot(t, k)["kind"]
    mk = lambda v: {"__type__": t, k: v}
    C = type(impl.loads("MAP END"))
    for n, b in BAD + [("empty auto-created dict", None)]:
        wraps = []
        if n == "empty auto-created dict":
            b = C()
        if kd == "attr":
            wraps = [("", b)]
        elif kd == "block":
            wraps = [("", b)] if n not in ("{'a':1}",) else []
        elif kd == "blocks":
            wraps = [("item", [b])] + ([("", b)] if n not in ("[]",) and not isinstance(b, list) else [])
        elif kd in ("kv", "config"):
            wraps = [("value", {"a": b})] if n != "{'a':1}" else []
            if kd == "kv" and n in ("None", "object", "nan"):
                wraps.append(("", b))
        elif kd in ("repeated", "projection"):
            wraps = [("item", ["x", b])] if n not in ("{'a':1}",) else []
            if n in ("{}", "None", "empty auto-created dict", "object", "nan"):
                wraps.append(("", b))
        elif kd in ("points", "pattern"):
            wraps = [("coord", [[1, b]]), ("coord2", [[1, 2], [b, 1]])] if not isinstance(b, list) else []
            if n in ("{}", "None", "empty auto-created dict", "object", "nan"):
                wraps.append(("", b))
        for wn, v in wraps:
            r = impl.attempt(impl.dumps, mk(v))
            acc.trans()
            acc.trace()
            acc.state((t, k, n, wn))
            if r[0] == "ok":
                acc.fail("written|%s.%s %s %s" % (t, k, n, wn), "a value with no Mapfile text is written", printed=r[1])


PLAIN = [0, 0.0, -0.0, "", "0", "0.0", 1, -7, 2.5, 1e22, 1e-7, 123456789.125, 1234567.5, 10 ** 20, "x", "None", "False"]


def scalars(t, k, acc):
    """scalars stored through the dictionary in every slot (empty and zero ones too)"""
    kd = V.slot(t, k)["kind"]
    for v in PLAIN:
        ws = []
        if kd in ("kv", "config"):
            ws = [{"a": v}, {"a": v, "b": "x", "c": v}, {"z": "y", "a": v}]
        elif kd == "repeated" or kd == "projection" and isinstance(v, str):
            ws = [[v], [v, "x"], ["x", v, v]]
        elif kd in ("points", "pattern") and not isinstance(v, str):
            ws = [[[v, 1]], [[1, 2], [3, v], [v, v]]] + ([[[[1, v]], [[v, 2], [1, 1]]]] if kd == "points" else [])
        elif kd == "attr" and not (isinstance(v, str) and V.looks_special(v)):
            ws = [v]
        for i, w in enumerate(ws):
            for m in ({"__type__": t, k: w}, dict([("__type__", t)] + [(k, w), ("name" if k != "name" else "group", "q")])) if t in ("layer", "class") else ({"__type__": t, k: w},):
                acc.state((t, k, repr(v), i, len(m)))
                c = impl.loads("MAP END").__class__
                for d in (m, c(OrderedDict, m)):
                    compare(copy.deepcopy(d), acc, "plain %s.%s=%r" % (t, k, w))


def step(group, case, acc):
    if group == "plain":
        scalars(case[0], case[1], acc)
        return
    if group == "unprintable":
        unprintable(case[0], case[1], acc)
        acc.sample("%s.%s = %s" % (case[0], case[1], ", ".join(n for n, _ in BAD)))
        return
    if group == "create":
        t, v = case
        d = impl.pub.create(t, v)
        acc.state((t, v))
        compare(d, acc, "create %s %s" % case, impl.pub.dumps)
        acc.sample(case)
        return
    if group == "edit":
        return edit(case, acc)
    if group == "H":
        text = open(os.path.join(impl.REPO, case), encoding="utf-8").read()
        r = impl.attempt(impl.loads, text, expand=False)
        acc.trans()
        if r[0] != "ok":
            acc.outcome("corpus file not accepted")
            return
        if R.any_string(r[1], lambda s: '"' in s.replace('\\"', "")):
            acc.outcome("corpus file with strings containing the output quote")
            return
        if R.unknown_keywords(r[1]):
            acc.outcome("corpus file with keywords unknown to the schema")
            return
        acc.outcome("corpus file checked")
        compare(r[1], acc, "corpus " + case)
        return
    lab, doc = case
    text = D.render(doc)
    pubs = group == "public"
    r = impl.attempt(impl.pub_loads if pubs else impl.loads_auto, text)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted by loads")
        return
    acc.state(D.canon(r[1]))
    t1 = compare(r[1], acc, lab, impl.pub.dumps if pubs else impl.dumps)
    if group in "AE" and t1 is not None:
        # the same content as ordinary dictionaries prints the same
        w = impl.attempt(impl.dumps, plain(r[1]))
        acc.trans()
        if w != ("ok", t1):
            acc.fail("plain dict|" + lab, "an ordinary dict with the same content prints differently: %s" % (w[1],), text=t1)
    acc.sample(text)


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    return [plain(v) for v in x] if isinstance(x, list) else x


_visited = {}


def types(x):
    if isinstance(x, dict):
        return (type(x).__name__, getattr(x, "default_factory", 0) is None) + tuple(types(v) for v in x.values() if isinstance(v, (dict, list)))
    if isinstance(x, list):
        return tuple(types(v) for v in x)
    return None


def edit(case, acc):
    b, first, depth = case
    doc = BASES[b]
    text = D.render(doc)
    base = impl.loads(text)
    model0 = D.expected(doc)
    E_ = _ed[b]
    seen = _visited.setdefault(b, {})

    def go(seq, real, model):
        """apply all continuations of the history seq"""
        h = D.canon(model)
        key = hash((h, D.canon(real), types(real)))
        acc.state(h)
        sig = "%s: %s" % (b, "; ".join(E_[i][0] for i in seq))
        if key not in seen:
            check(sig, real, model)
        if len(seq) == depth or seen.get(key, 99) <= len(seq):
            seen.setdefault(key, len(seq))
            return  # this state was expanded before with at least as many edits left
        seen[key] = len(seq)
        for i in range(len(E_)):
            if len(seq) == 2 and len(E_) > 30 and "=" in E_[i][0]:
                continue  # third edit on the large base: insertions, removals, reads, updates and reorderings only
            m = copy.deepcopy(model)
            try:
                E_[i][1](Model(), m)
            except Skip:
                continue
            r = copy.deepcopy(real)
            try:
                E_[i][1](Impl(), r)
            except Exception as e:
                acc.fail("edit raised|%s; %s" % (sig, E_[i][0]), "%s: %s" % (type(e).__name__, impl.exc_text(e)))
                continue
            go(seq + (i,), r, m)

    def check(sig, real, model):
        if empty_autos(model):
            w = impl.attempt(impl.dumps, real)
            acc.trans()
            acc.trace()
            acc.outcome("refused" if w[0] != "ok" else "written")
            if w[0] == "ok":
                acc.fail("written|" + sig, "a dictionary holding an empty auto-created dict is printed", printed=w[1])
            return
        compare(real, acc, sig, model=model)

    m = copy.deepcopy(model0)
    r = copy.deepcopy(base)
    try:
        E_[first][1](Model(), m)
    except Skip:
        return
    E_[first][1](Impl(), r)
    if first == 0:
        check("%s: unedited" % b, base, model0)
    go((first,), r, m)
    acc.sample("%s: %s; ..." % (b, E_[first][0]))
