"""The document space: finite groups of documents, every one enumerated.

A  every keyword slot x every value sample x every position in its block
B  every slot in every parent context, every containment path up to depth 5
C  every ordered pair of slots of a type
D  every document of a reduced alphabet up to a number of items (breadth first)
E  duplicates, repeated keywords, mixed-case keys
F  every ordered pair of root objects
G  large documents
K  string contents: reserved words, every character, all short lists of projection strings
X  every attribute slot x every generic value shape, whether or not the schema allows it there; odd blocks
H  the corpus files shipped in the repository (text, no AST)
"""
from __future__ import annotations
import os, glob, itertools
from . import vocab as V
from .vocab import S, W, SIMPLE
from .doc import SINGLE, PLURAL

SIMPLE2 = {"class": ("attr", "title", S("t 2")), "cluster": ("attr", "buffer", ("int", "3")),
           "composite": ("attr", "compop", W("src-over")), "feature": ("attr", "items", S("a;b")),
           "grid": ("attr", "minarcs", ("int", "3")), "join": ("attr", "table", S("t.dbf")),
           "label": ("attr", "position", W("CC")), "layer": ("attr", "name", S("l 2")),
           "leader": ("attr", "maxdistance", ("int", "9")), "legend": ("attr", "keysize", ("list", [("int", "20"), ("int", "10")])),
           "map": ("attr", "units", W("METERS")), "outputformat": ("attr", "extension", S("png")),
           "querymap": ("attr", "size", ("list", [("int", "20"), ("int", "10")])),
           "reference": ("attr", "image", S("r.png")), "scalebar": ("attr", "intervals", ("int", "4")),
           "scaletoken": ("kv", "values", [(S("0"), S("a"))]), "style": ("attr", "symbol", S("circle")),
           "web": ("attr", "footer", S("f.html")), "symbol": ("attr", "name", S("sy")),
           "symbolset": ("block", "symbol", [("attr", "type", W("VECTOR"))])}
CHILD = {"map": "web", "layer": "class", "class": "style", "label": "style", "legend": "label", "scalebar": "label",
         "leader": "style", "web": None, "symbolset": "symbol"}


def root(t, items):
    return [("block", t, items)]


def wrap(path, item):
    """document with the given item inside the nested block types of path"""
    for t in reversed(path):
        item = ("block", t, [item])
    return [item]


def group_a(thorough):
    out = []
    for t in V.TYPES:
        for k in V.slots(t):
            for shape, item, cls in V.slot_samples(t, k, thorough):
                lab = "%s.%s/%s/%s" % (t, k, shape, V.item_text(item))
                s1, s2 = SIMPLE[t], SIMPLE2[t]
                if item[0] == "attr" and s1[0] == "attr" and s1[1] == k:
                    s1 = s2
                if item[0] == "attr" and s2[0] == "attr" and s2[1] == k:
                    s2 = s1
                out.append((lab + "@only", root(t, [item])))
                if t == "symbolset" and s1 is s2:
                    continue
                if item[0] == "kv" and s2[0] == "kv":
                    s2 = s1
                out.append((lab + "@first", root(t, [item, s1])))
                out.append((lab + "@last", root(t, [s1, item])))
                out.append((lab + "@mid", root(t, [s1, item, s2] if s1 is not s2 else [s1, item])))
                c = CHILD.get(t)
                if c and not (item[0] == "block" and item[1] in SINGLE and item[1] == c):
                    out.append((lab + "@afterblock", root(t, [("block", c, [SIMPLE[c]]), item, s1])))
    return [x for i, x in enumerate(out)]


def parents_paths(t, depth):
    """all containment chains ending just above t (outermost first), including the empty one"""
    out = [()]
    if depth <= 0:
        return out
    for p in sorted(V.PARENTS.get(t, ())):
        if p == t:
            continue
        for up in parents_paths(p, depth - 1):
            out.append(up + (p,))
    return out


def group_b(thorough):
    out = []
    for t in V.TYPES:
        for path in parents_paths(t, 4):
            out.append(("path %s" % "/".join(path + (t,)), wrap(path, ("block", t, [SIMPLE[t]]))))
            # siblings on both sides at each level
            it = ("block", t, [SIMPLE[t]])
            for p in reversed(path):
                sib = [it]
                if SIMPLE[p][0] == "attr":
                    sib = [SIMPLE[p], it, SIMPLE2[p]] if p not in ("symbolset",) else [it]
                if it[1] not in SINGLE:
                    sib = sib + [it]
                it = ("block", p, sib)
            out.append(("sibs %s" % "/".join(path + (t,)), [it]))
        for path in parents_paths(t, 2):
            if not path:
                continue
            for k in V.slots(t):
                sm = V.slot_samples(t, k, False)
                for shape, item, cls in (sm if thorough else sm[:1]):
                    out.append(("ctx %s.%s/%s" % ("/".join(path + (t,)), k, shape), wrap(path, ("block", t, [item]))))
    return out


def group_c(thorough):
    out = []
    for t in V.TYPES:
        ks = V.slots(t)
        for k1 in ks:
            for k2 in ks:
                s1, s2 = V.slot_samples(t, k1, False), V.slot_samples(t, k2, False)
                if not s1 or not s2:
                    continue
                pairs = itertools.product(s1[:3], s2[:2]) if thorough else [(s1[0], s2[-1])]
                for a, b in pairs:
                    if k1 == k2 and a is b and V.slot(t, k1)["kind"] not in ("block",):
                        pass
                    out.append(("pair %s.%s/%s,%s/%s" % (t, k1, a[0], k2, b[0]), root(t, [a[1], b[1]])))
    return out


# ---- D: breadth-first builder over a reduced alphabet
D_LEAVES = {
    "map": [("attr", "name", S("m")), ("attr", "size", ("list", [("int", "10"), ("int", "20")])), ("config", S("A"), S("1")), ("kv", "metadata", []),
            ("proj", [S("init=epsg:4326")])],
    "layer": [("attr", "type", W("POINT")), ("attr", "name", S("l")), ("rep", "processing", S("A=1")), ("kv", "metadata", [(S("k"), S("v"))]),
              ("attr", "filter", ("expr", "( [a] > 1 )"))],
    "class": [("attr", "name", S("c")), ("attr", "expression", ("regex", "/a/")), ("attr", "symbol", W("circle"))],
    "style": [("attr", "color", ("list", [("int", "1"), ("int", "2"), ("int", "3")])), ("attr", "symbol", S("s")), ("pattern", [("1", "2")])],
    "label": [("attr", "color", ("bind", "c")), ("attr", "text", S("t"))],
    "feature": [("points", [("1", "2"), ("3", "4")]), ("attr", "text", S("t"))],
    "web": [("kv", "metadata", [(S("a"), S("b"))]), ("attr", "template", S("t"))],
    "symbol": [("attr", "name", S("s")), ("points", [("1", "1")])],
}
D_KIDS = {"map": ["layer", "web", "symbol"], "layer": ["class", "feature"], "class": ["style", "label"], "label": ["style"]}


def _forests(t, n, memo):
    """all item lists for block type t with exactly n nodes in total"""
    key = (t, n)
    if key in memo:
        return memo[key]
    out = [()] if n == 0 else []
    if n:
        for first, size in _nodes(t, n, memo):
            for rest in _forests(t, n - size, memo):
                out.append((first,) + rest)
    memo[key] = out
    return out


def _nodes(t, n, memo):
    out = [(leaf, 1) for leaf in D_LEAVES.get(t, ())]
    for c in D_KIDS.get(t, ()):
        for m in range(0, n):
            for items in _forests(c, m, memo):
                out.append((("block", c, list(items)), m + 1))
    return [x for x in out if x[1] <= n]


def ok_d(items):
    """at most one WEB per object (a second replaces the first: group E)"""
    return sum(1 for i in items if i[0] == "block" and i[1] == "web") <= 1


def group_d(thorough):
    out = []
    bounds = [("map", 4 if thorough else 3), ("layer", 4 if thorough else 3), ("class", 4 if thorough else 3), ("label", 4), ("feature", 4), ("symbol", 4)]
    for t, n in bounds:
        memo = {}
        for m in range(0, n + 1):
            for i, items in enumerate(_forests(t, m, memo)):
                if ok_d(items):
                    out.append(("build %s n=%d #%d" % (t, m, i), root(t, list(items))))
    return out


def group_e(thorough):
    out = []
    add = lambda lab, t, items: out.append((lab, root(t, items)))
    # a key given twice keeps its last value (at its first place), for every slot with two samples
    for t in V.TYPES:
        for k in V.slots(t):
            kd = V.slot(t, k)["kind"]
            sm = V.slot_samples(t, k, thorough)
            if kd in ("attr", "repeated", "kv", "projection", "config") and len(sm) > 1:
                a, b = sm[0][1], sm[-1][1]
                add("dup %s.%s" % (t, k), t, [a, SIMPLE[t], b] if SIMPLE[t][1] != k else [a, b])
                add("dup3 %s.%s" % (t, k), t, [a, b, SIMPLE2[t], a] if SIMPLE2[t][1] != k else [a, b, a])
            if kd in ("blocks", "block"):
                c = V.slot(t, k)["type"]
                b1, b2 = ("block", c, [SIMPLE[c]]), ("block", c, [SIMPLE2[c]])
                add("blocks2 %s.%s" % (t, k), t, [b1, b2])
                add("blocks3 %s.%s" % (t, k), t, [b1, SIMPLE[t], b2, b1] if SIMPLE[t][0] == "attr" else [b1, b2, b1])
            if kd == "points":
                for n in (2, 3, 4):
                    add("points%d %s" % (n, t), t, [("points", [(str(i), "1"), (str(i), "2.5")]) for i in range(n)])
                    add("points%dmix %s" % (n, t), t, [x for i in range(n) for x in (("points", [(str(i), "1")]), SIMPLE[t])])
            if kd == "kv":
                add("kvcase %s.%s" % (t, k), t, [("kv", k, [(S("Key"), S("1")), (S("other"), S("x")), (S("KEY"), S("2"))])])
                add("kvnum %s.%s" % (t, k), t, [("kv", k, [(S("1"), S("2")), (S("0.5"), S("x y"))])])
            if kd == "config":
                add("config2 %s" % t, t, [("config", S("A"), S("1")), SIMPLE[t], ("config", S("b"), S("2")), ("config", S("a"), S("3"))])
    # keywords, types and hidden-looking names as strings
    for w in sorted(set(V.TYPES) | {"end", "metadata", "points", "auto", "null", "true", "on", "include", "projection", "layers"}):
        add("word-as-string %s" % w, "layer", [("attr", "name", S(w)), ("attr", "type", W("POINT")), ("attr", "group", S(w.upper()))])
        add("word-as-kv %s" % w, "layer", [("kv", "metadata", [(S(w), S(w))]), ("kv", "validation", [(S(w), S("x"))])])
        add("word-as-proc %s" % w, "layer", [("rep", "processing", S(w)), ("attr", "name", S("n")), ("rep", "processing", S(w + "=" + w))])
        add("word-as-proj %s" % w, "map", [("proj", [S(w if w != "auto" else "xauto")]), ("config", S(w), S(w))])
    return out


# ---------------------------------------------------------------- K: contents of strings
KWORDS = ["auto", "AUTO", "Auto", "end", "END", "true", "FALSE", "on", "off", "null", "none", "default", "map", "layer", "class", "style", "symbol", "label", "grid", "points", "pattern",
          "projection", "metadata", "validation", "values", "config", "connectionoptions", "include", "include 'x.map'", "not", "and", "or", "in", "like", "1", "-1", "1.5", "1e5", "1e999", "0x10",
          "+1", ".5", "5.", "1 2", "1,2", "#", "# x", "#aabbcc", "#abc", "//", "/*", "*/", "/* x */", "/", "/x", "x/", "[", "]", "[]", "[x", "x]", "[x] [y]", "(", ")", "()", "(x", "x)", "((x)",
          "{", "}", "{}", "{a", "%", "%%", "%v", "%v%", "%v% x", "=", "==", "<>", "*", "+", "^", "-", "--", "__x__", "__type__", "_", "&", "&#65;", "&#x41;", ";", ":", "?", "!", "@", "$", "`", "~", "|",
          " ", "  ", " x", "x ", " x ", "a  b", "\t", "a\tb", "\n", "a\nb", "a\r\nb", "a\rb", "\na", "a\n", "a\n\nb", "\\ ", "a\\b", "\\n", "c:\\temp\\x", "\\\\srv\\x", "it's", "'", "''", "'x'", "'x'i", "x'i", "/x/i",
          '\\"', '\\"e\\"', 'e\\"', '\\"e', 'a\\"b\\"c', '\\"\\"', "\\'", "\\'e\\'", '\\\\"x',
          "\ufeff", "\ufeffa", "a\u00a0b", "\u00a0", "e\u0301", "\u200b", "\U0001f600"]
KPOS = [("name", lambda v: [("block", "layer", [("attr", "name", v), ("attr", "type", W("POINT"))])]),
        ("md-value", lambda v: [("block", "web", [("kv", "metadata", [(S("k"), v), (S("z"), S("last"))])])]),
        ("md-key", lambda v: [("block", "web", [("kv", "metadata", [(v, S("v")), (S("last"), S("x"))])])]),
        ("validation", lambda v: [("block", "class", [("kv", "validation", [(S("k"), v), (S("z"), S("last"))]), ("attr", "name", S("c"))])]),
        ("co-value", lambda v: [("block", "layer", [("kv", "connectionoptions", [(S("k"), v)]), ("attr", "type", W("POINT"))])]),
        ("config", lambda v: [("block", "map", [("config", S("K"), v), ("attr", "name", S("c"))])]),
        ("processing", lambda v: [("block", "layer", [("rep", "processing", S("A=1")), ("rep", "processing", v), ("rep", "processing", S("B=2"))])]),
        ("formatoption", lambda v: [("block", "outputformat", [("rep", "formatoption", v), ("attr", "name", S("x"))])]),
        ("values", lambda v: [("block", "scaletoken", [("kv", "values", [(S("0"), v), (S("100"), S("b"))])])]),
        ("font", lambda v: [("block", "label", [("attr", "font", v), ("attr", "size", ("int", "8"))])])]


def group_k(thorough):
    """contents of quoted strings: words, every character, lists of projection strings"""
    out = []
    chars = [chr(i) for i in range(1, 0x250) if chr(i) not in '"\\'] + [chr(i) for i in (0x3c3, 0x3c2, 0x3a3, 0x130, 0x131, 0x1e9e, 0x2028, 0x2029, 0x202e, 0x3000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff)]
    for p, f in KPOS:
        for w in KWORDS:
            out.append(("K %s %r" % (p, w), f(S(w))))
        for c in chars:
            for s in (("a%sb" % c, c) if thorough or ord(c) < 0x100 else ("a%sb" % c,)):
                out.append(("K %s %r" % (p, s), f(S(s))))
    # every code point, in the values of long METADATA blocks
    step = 256
    for lo in range(0x100, 0x110000 if thorough else 0x10000, step):
        cs = [chr(c) for c in range(lo, lo + step) if not 0xd800 <= c < 0xe000]
        if cs:
            out.append(("K block %x" % lo, root("web", [("kv", "metadata", [(S("k%d" % i), S("a%sb" % c)) for i, c in enumerate(cs)])])))
    al = ["auto", "AUTO", "init=epsg:4326", "proj=utm", "", "end"]
    for n in (1, 2, 3):
        for t in itertools.product(al[:4] if n == 3 else al, repeat=n):
            if n > 1 or t[0].lower() != "auto":
                out.append(("K proj %s" % "|".join(t), root("layer", [("proj", [S(x) for x in t]), ("attr", "type", W("POINT"))])))
                out.append(("K mproj %s" % "|".join(t), root("map", [("attr", "name", S("m")), ("proj", [S(x) for x in t])])))
    return out


N = lambda *a: ("list", [("num" if set(x) & set(".e") else "int", x) for x in a])
GENERIC = [S("plain"), S(""), S("a b"), S("7"), S("1.5"), S("true"), S("[x]"), S("[x] b"), S("(x)"), S("/x/"), S("{a,b}"), S("on"), ("hex", "#aabbcc"),
           S("it's"), S("%v%"), S('q \\"e\\" q'), S("h\u00e9 \u2192\U0001f600"), S("two\nlines"), S("# x"), S("/* x */"), S("x'i"), S("END"), S("none"),
           W("foo"), W("on"), W("normal"), W("selected"), W("auto"), W("a/b.png"), W("end_x"), W("Mixed-Case_1"),
           ("int", "7"), ("int", "-3"), ("num", "2.5"), ("num", "1e3"), ("num", "-0.0"), ("num", "1e-7"), ("num", "1e22"), ("int", "123456789012345678901234567890"),
           ("bool", "TRUE"), ("bool", "false"), ("hex", "#ABC"), ("hex", "#aabbccdd"),
           ("bind", "x"), ("expr", "( [a] = 1 )"), ("expr", "NOT ( [a] = 1 )"), ("regex", "/x y/"), ("regexi", "/x/i"), ("istr", "'a b'i"), ("lexpr", "{a,b c,3}"),
           N("1", "2"), N("1.5", "2"), N("1", "2", "3"), N("1.5", "2", "3", "4.0"), N("-1", "-2", "-3", "-4"), N("0", "1", "2", "3", "4", "5"),
           ("list", [("hex", "#aabbcc"), ("hex", "#00ff00")]), ("list", [("bind", "a"), ("bind", "b")]), ("list", [("bind", "a"), ("int", "1")]),
           ("list", [("int", "1"), ("bind", "b")]), ("rtvar", "%v%"), W("NULL")]


GSTR = [v for v in GENERIC if v[0] == "str"] + [S("#aabbcc")]


def allowed_x(t, k, v):
    """documented exclusion: strings of expression-capable keywords which look like an expression, regex, list or binding"""
    if k == "style" and v[0] == "word" and v[1].lower() not in ("normal", "selected", "auto", "null", "a/b.png"):
        return False  # a bare word after STYLE starts a STYLE block
    if v[0] == "str" and V.looks_special(v[1]):
        return not ((t, k) in V.EXPR_KEYS or k in ("geomtransform", "expression"))
    return True


def group_x(thorough):
    out = []
    for t in V.TYPES:
        for k in V.slots(t):
            kd = V.slot(t, k)["kind"]
            if kd == "attr":
                for v in GENERIC:
                    if allowed_x(t, k, v):
                        out.append(("x %s.%s/%s" % (t, k, V.item_text(("attr", k, v))), root(t, [("attr", k, v), SIMPLE2[t]] if SIMPLE2[t][1] != k else [("attr", k, v)])))
            elif kd in ("points", "pattern"):
                out.append(("x %s.%s/neg" % (t, k), root(t, [(kd, [("-1", "1e3"), ("+2", ".5"), ("-0.0", "1e-7")])])))
            elif kd == "projection":
                for vs in ([], [S("")], [S("a b"), S("it's"), S("7")], [S("+proj=utm +zone=11 +datum=WGS84")], [S('q \\"e')]):
                    out.append(("x %s.projection/%r" % (t, vs), root(t, [("proj", vs)])))
            elif kd == "kv":
                for v in GSTR:
                    if v[0] in ("str", "hex"):
                        out.append(("x %s.%s/%r" % (t, k, v[1]), root(t, [("kv", k, [(S("a"), v), (S("b"), S("x"))])])))
                        if v[1]:
                            out.append(("x %s.%s/key %r" % (t, k, v[1]), root(t, [("kv", k, [(v, S("x")), (S("zz"), v)])])))
                        if k != "connectionoptions":
                            continue
                for w in ("layers", "connectionoptions", "points", "metadata", "projection", "config", "classes", "type", "values"):
                    out.append(("x %s.%s/key %s" % (t, k, w), root(t, [("kv", k, [(S("a"), S("x")), (S(w), S("y"))])])))
            elif kd == "repeated":
                for v in GSTR:
                    if k != "include":
                        out.append(("x %s.%s/%r" % (t, k, v[1]), root(t, [("rep", k, v), SIMPLE[t], ("rep", k, S("x"))])))
            elif kd == "config":
                for v in GSTR:
                    if v[0] in ("str", "hex"):
                        out.append(("x %s.config/%r" % (t, v[1]), root(t, [("config", S("A"), v), SIMPLE[t], ("config", S("B_c"), S("x"))])))
    return out


KV_ROOTS = [("kv", "metadata", [(S("a"), S("b c"))]), ("kv", "validation", [(S("k"), S("^x$"))]), ("kv", "connectionoptions", [(S("o"), S("1"))])]


def roots():
    return [("block", t, [SIMPLE[t]]) for t in V.TYPES if t != "symbolset"] + KV_ROOTS


def group_f(thorough):
    out = [("root %s" % r[1], [r]) for r in roots()] + [("root symbolset", [("block", "symbolset", [SIMPLE["symbolset"]])])]
    out += [("empty %s" % t, [("block", t, [])]) for t in V.TYPES] + [("empty %s" % k[1], [("kv", k[1], [])]) for k in KV_ROOTS]
    for a in roots():
        for b in roots():
            out.append(("roots %s,%s" % (a[1], b[1]), [a, b]))
    rs = roots()
    out.append(("roots all", rs))
    out.append(("roots all reversed", rs[::-1]))
    if thorough:
        for a in rs:
            for b in rs:
                out.append(("roots3 %s,%s" % (a[1], b[1]), [a, b, a]))
    return out


def group_g(thorough):
    n = 300 if thorough else 120
    lay = lambda i: ("block", "layer", [("attr", "name", S("layer %d" % i)), ("attr", "type", W("POINT")),
                                        ("block", "class", [("attr", "name", S("c")), ("block", "style", [("attr", "color", ("list", [("int", str(i % 256)), ("int", "0"), ("int", "9")]))])]),
                                        ("kv", "metadata", [(S("wms_title"), S("t%d" % i))])])
    out = [("layers x%d" % n, root("map", [("attr", "name", S("m"))] + [lay(i) for i in range(n)])),
           ("metadata x%d" % n, root("web", [("kv", "metadata", [(S("k%d" % i), S("v%d" % i)) for i in range(n)])])),
           ("points x%d" % n, root("feature", [("points", [(str(i), "%d.5" % i) for i in range(n)])])),
           ("features x%d" % n, root("layer", [("block", "feature", [("points", [(str(i), "1"), ("2", "3")])]) for i in range(n)])),
           ("processing x%d" % n, root("layer", [("rep", "processing", S("P%d=%d" % (i, i))) for i in range(n)])),
           ("projection x%d" % n, root("map", [("proj", [S("p%d=1" % i) for i in range(n)])])),
           ("roots x%d" % n, [("block", "class", [("attr", "name", S("c%d" % i))]) for i in range(n)]),
           ("long string", root("map", [("attr", "name", S("x" * 5000)), ("kv", "metadata", [(S("k" * 300), S("line1\nline2\n\n  line 4 " * 50))])])),
           ("multiline", root("layer", [("attr", "data", S("the_geom from (select *\n  from t\n where a = 1) as foo using unique id")), ("attr", "type", W("POINT"))]))]
    return out


def corpus():
    from . import impl
    fs = []
    for d in ("tests", "docs"):
        fs += glob.glob(os.path.join(impl.REPO, d, "**", "*.map"), recursive=True)
    return sorted(os.path.relpath(f, impl.REPO) for f in fs)


_groups = {"A": group_a, "B": group_b, "C": group_c, "D": group_d, "E": group_e, "F": group_f, "G": group_g, "X": group_x, "K": group_k}


def documents(groups="ABCDEFG", thorough=False):
    """[(group, (label, doc))], documents distinct within the whole list"""
    out, seen = [], set()
    for g in groups:
        for lab, doc in _groups[g](thorough):
            key = repr(doc)
            if key in seen:
                continue
            seen.add(key)
            out.append((g, (lab, doc)))
    return out


def public_subspace(docs):
    """one value per slot, all containment paths, all roots: run through the module-level functions"""
    seen, out = set(), []
    for g, (lab, doc) in docs:
        key = lab.split("/")[0] if g == "A" else lab if g in "FG" or lab.startswith(("path", "kvcase", "points", "config2")) else None
        if key and key not in seen:
            seen.add(key)
            out.append(("public", (lab, doc)))
    return out
