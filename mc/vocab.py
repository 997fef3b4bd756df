"""Frozen vocabulary (spec/vocab.json) and the finite value alphabet used for every keyword slot."""
from __future__ import annotations
import json, os
from functools import lru_cache

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VOCAB = json.load(open(os.path.join(HERE, "spec", "vocab.json"), encoding="utf-8"))
TYPES = sorted(VOCAB)                       # 20: the 19 block types + symbolset
S = lambda s: ("str", s)
W = lambda s: ("word", s)

# parents[t] = block types whose slots contain t
PARENTS = {}
for _t in TYPES:
    for _k, _s in VOCAB[_t]["slots"].items():
        if _s["kind"] in ("block", "blocks"):
            PARENTS.setdefault(_s["type"], []).append(_t)

EXPR_KEYS = {(t, k) for t in TYPES for k, s in VOCAB[t]["slots"].items()
             if s["kind"] == "attr" and any(a["k"] in ("expr", "regex") for a in s["alts"])}
# LAYER GEOMTRANSFORM is 'any string or (expression)'
BIND_KEYS = {(t, k) for t in TYPES for k, s in VOCAB[t]["slots"].items()
             if s["kind"] == "attr" and any(a["k"] == "bind" for a in s["alts"])}


def slot(t, k):
    return VOCAB[t]["slots"][k]


def enum_words(t, k):
    out = []
    for a in slot(t, k).get("alts", []):
        if a["k"] == "enum":
            out += [w for w in a["values"] if isinstance(w, str)]
        if a["k"] == "strpat":
            out.append(a["pattern"].strip("^$"))
    return out


def num_samples(a, thorough=False):
    lo, hi = a.get("minimum"), a.get("maximum")
    integer = a["k"] == "int"
    cand = ["7", "-3", "0", "1", "200", "2.5", "-0.5", "12345678901", "1e3", "+4", ".5"] if thorough else ["7", "-3", "2.5", "0", "200"]
    if lo is not None:
        cand.append(str(lo))
    if hi is not None:
        cand.append(str(hi))
    out = []
    for c in cand:
        v = float(c)
        if integer and any(x in c for x in ".e"):
            continue
        if lo is not None and v < lo or hi is not None and v > hi:
            continue
        if c not in out:
            out.append(c)
    return [("num" if any(x in c for x in ".e") else "int", c) for c in out]


EXPRS = ["( [a] = 1 )", '( "[a]" = "b c" )', "( ( [a] > 1 ) AND ( [b] < 2 ) )", "(tostring([a],\"%.2f\"))",
         "NOT ( [a] = 1 )", "( [n] ~* 'x' )", "([a] + 1)", "( [t] eq `2020-01-01` )"]
STR_SIMPLE = ["plain", "a b"]
STR_TRICKY = ["", "end", "x # y", "it's", "7", "1.5", "true", "auto", "h\u00e9llo \u2192 \U0001f600", "C:\\d\\e", "a/b.png",
              "/x/y", "[a] b", "http://h/?a=b&c=d", "{a", "(a", "%v%", "/* c */", "a\tb", "NULL",
              "-1", "not (a)", "x'i", "a,b", "`a`", "__x__", "#", "[a]-[b]", " lead", "trail ", "map", "layer"]
HEXES = ["#aabbcc", "#AABBCC", "#abc", "#aabbccdd", "#abcd", "#012"]


def alt_samples(t, k, a, thorough=False):
    """[(shape, value, class)] class: 'q' quoted, 'b' bare/unquoted, 'e' either"""
    kd = a["k"]
    if kd == "enum":
        out = []
        for w in a["values"]:
            if isinstance(w, str):
                if t == "style" and k == "geomtransform" and w == "end":
                    out.append(("enum-end", S("end"), "q"))
                    continue
                cls = "e" if k == "compop" else "b"
                out.append(("enum", W(w), cls))
                out.append(("enum-upper", W(w.upper()), cls))
                if k == "compop":
                    out.append(("enum-q", S(w), "e"))
            else:
                out.append(("enum-int", ("int", str(w)), "b"))
        return out
    if kd == "strpat":
        return [("strpat", S(a["pattern"].strip("^$")), "e")]
    if kd == "charref":
        return [("charref", S("&#10140;"), "q")]
    if kd == "str":
        if a.get("maxLength") == 1:
            return [("char", S(c), "q") for c in ("x", "#", "\u00e9", "7", ",", "[", "{", ";")]
        strs = STR_SIMPLE + (STR_TRICKY if thorough else [])
        out = []
        words = set(enum_words(t, k))
        exprcap = (t, k) in EXPR_KEYS
        for s in strs:
            if s.lower() in words:
                continue
            if exprcap and looks_special(s):
                continue
            if (t, k) in BIND_KEYS and looks_special(s):
                continue
            out.append(("str", S(s), "q"))
        if k in ("expression",):
            out += [("lexpr", ("lexpr", "{a,b c,3}"), "b"), ("regexi", ("regexi", "/^a b/i"), "b"), ("istr", ("istr", "'ab c'i"), "b"),
                    ("istr2", ("istr", '"ab c"i'), "b")]
        return out
    if kd == "expr":
        if (t, k) == ("style", "geomtransform") or (t, k) == ("layer", "geomtransform"):
            return [("expr", ("expr", '(buffer([shape],2))'), "b"), ("expr2", ("expr", "( [a] = 1 )"), "b")]
        ex = EXPRS if thorough else EXPRS[:3]
        return [("expr", ("expr", e), "b") for e in ex]
    if kd == "regex":
        return [("regex", ("regex", "/^a b.*$/"), "b")]
    if kd == "hex":
        return [("hex", ("hex", h), "q") for h in (HEXES if thorough else HEXES[:3])]
    if kd == "bind":
        return [("bind", ("bind", "attr"), "b")]
    if kd == "bool":
        return [("bool", ("bool", "TRUE"), "b"), ("bool", ("bool", "false"), "b")]
    if kd in ("int", "num"):
        return [(kd, v, "b") for v in num_samples(a, thorough)]
    if kd in ("list", "tuple"):
        n = a["n"]
        if kd == "tuple":
            cols = [[x for al in it for x in alt_samples(t, k, al, thorough)] for it in a["items"]]
            cols = [[x for x in c if x[0] != "str"] or c for c in cols]
            while len(cols) < n:
                cols.append(cols[-1] if cols else [])
            if k == "shadowsize":
                # mixed pair in either order
                ints = [x for x in cols[0]]
                binds = [("bind", ("bind", "attr"), "b")]
                return [("mixed", ("list", [ints[0][1], binds[0][1]]), "b"), ("mixed-r", ("list", [binds[0][1], ints[0][1]]), "b"),
                        ("bindpair", ("list", [binds[0][1], ("bind", "b2")]), "b")]
            return [("tuple", ("list", [c[i % len(c)][1] for c in cols]), "b") for i in range(max(len(c) for c in cols))]
        out = []
        per = {}
        for al in a["items"]:
            for sh, v, c in alt_samples(t, k, al, thorough):
                if n == 3 and v[0] == "num":
                    continue  # RGB components are written as integers
                per.setdefault(sh, []).append((v, c))
        if k == "colorrange" and "str" in per:
            per = {"hex": [(("hex", "#aabbcc"), "q"), (("hex", "#00FF00"), "q")]}
        for sh, vs in per.items():
            for i in range(len(vs) if thorough else min(2, len(vs))):
                out.append(("list-" + sh, ("list", [vs[(i + j) % len(vs)][0] for j in range(n)]), vs[0][1]))
        if n == 2 and "bind" in per and ("num" in per or "int" in per):
            nums = per.get("num") or per.get("int")
            out.append(("list-mixed", ("list", [nums[0][0], per["bind"][0][0]]), "b"))
            out.append(("list-mixed-r", ("list", [per["bind"][0][0], nums[0][0]]), "b"))
        return out
    if kd == "block":
        return []
    raise ValueError(a)


def looks_special(s):
    t = s.strip()
    return ((t[:1], t[-1:]) in (("(", ")"), ("[", "]"), ("{", "}"), ("/", "/")) or t.endswith(("'i", '"i', "/i"))
            or t.upper().startswith("NOT "))


@lru_cache(None)
def slot_samples(t, k, thorough=False):
    """[(shape, item, class)] for one keyword slot; items are doc.py AST items"""
    s = slot(t, k)
    kd = s["kind"]
    if kd == "attr":
        out, seen = [], set()
        for a in s["alts"]:
            for sh, v, c in alt_samples(t, k, a, thorough):
                if repr(v) not in seen:
                    seen.add(repr(v))
                    out.append((sh, ("attr", k, v), c))
        kinds = {a["k"] for a in s["alts"]}
        if kinds == {"str"} and not any("maxLength" in a for a in s["alts"]):
            out.append(("strnum", ("attr", k, ("int", "7")), "e"))
            out.append(("bareword", ("attr", k, W("Bare_word-1")), "q"))
            if thorough:
                out.append(("barepath", ("attr", k, W("../d/x_1.tif")), "q"))
                out.append(("strnum", ("attr", k, ("num", "2.50")), "e"))
        return tuple(out)
    if kd == "repeated":
        vals = ["A=b c", "x"] + (["", "7", "#x", "it's", "end"] if thorough else [])
        if k == "include":
            vals = ["inc/a.map"]
        return tuple(("rep", ("rep", k, S(v)), "q") for v in vals)
    if kd == "kv":
        P = [("str", "wms_title"), S("A b")]
        out = [("kv", ("kv", k, [(S("wms_Title"), S("A b"))]), None),
               ("kv2", ("kv", k, [(S("k1"), S("v1")), (W("k2"), S("v 2"))]), None)]
        if thorough:
            out += [("kv0", ("kv", k, []), None),
                    ("kvdup", ("kv", k, [(S("k1"), S("v1")), (S("k2"), S("")), (S("K1"), S("v3"))]), None),
                    ("kvbare", ("kv", k, [(W("k1"), W("v1"))]), None),
                    ("kvtricky", ("kv", k, [(S("a b"), S("#aabbcc")), (S("end"), S("end")), (S("h\u00e9"), S("[x]")), (S("n"), S("7")), (S("name"), S("(x)")), (S("it's"), S("/x/i"))]), None)]
        return tuple(out)
    if kd == "config":
        out = [("config", ("config", S("PROJ_LIB"), S("/p q")), None), ("config", ("config", S("MS_ERRORFILE"), S("stderr")), None)]
        if thorough:
            out += [("config-bare", ("config", W("ON_MISSING_DATA"), W("FAIL")), None), ("config-x", ("config", S("CGI_CONTEXT_URL"), S("1")), None)]
        return tuple(out)
    if kd == "projection":
        out = [("proj", ("proj", [S("init=epsg:4326")]), None), ("proj-auto", ("proj", "AUTO"), None)]
        if thorough:
            out += [("proj2", ("proj", [S("proj=utm"), S("zone=15"), S("no_defs")]), None), ("proj0", ("proj", []), None)]
        return tuple(out)
    if kd in ("points", "pattern"):
        out = [(kd, (kd, [("1", "2"), ("3.5", "-4")]), None)]
        if thorough:
            out += [(kd + "1", (kd, [("0", "1")]), None), (kd + "3", (kd, [("0", "0"), ("1", "1"), ("2", "2.0")]), None)]
        return tuple(out)
    if kd in ("block", "blocks"):
        return tuple((sh, it, None) for sh, it in block_samples(s["type"], thorough))
    raise ValueError(kd)


# one simple, unambiguous keyword per block type
SIMPLE = {"class": ("attr", "name", S("c")), "cluster": ("attr", "maxdistance", ("int", "7")),
          "composite": ("attr", "opacity", ("int", "50")), "feature": ("attr", "text", S("t")),
          "grid": ("attr", "labelformat", S("DDMM")), "join": ("attr", "name", S("j")),
          "label": ("attr", "size", ("int", "8")), "layer": ("attr", "type", W("POINT")),
          "leader": ("attr", "gridstep", ("int", "5")), "legend": ("attr", "status", W("ON")),
          "map": ("attr", "name", S("m")), "outputformat": ("attr", "name", S("png")),
          "querymap": ("attr", "status", W("ON")), "reference": ("attr", "status", W("ON")),
          "scalebar": ("attr", "status", W("ON")), "scaletoken": ("attr", "name", S("%s%")),
          "style": ("attr", "width", ("int", "2")), "web": ("attr", "template", S("t.html")),
          "symbol": ("attr", "type", W("ELLIPSE")), "symbolset": ("block", "symbol", [("attr", "name", S("s"))])}


def block_samples(t, thorough=False):
    out = [("block1", ("block", t, [SIMPLE[t]]))]
    if thorough:
        out.append(("block0", ("block", t, [])))
    return out


def slots(t):
    return sorted(VOCAB[t]["slots"])


def item_text(item):
    """short identification of the value in an item"""
    r = repr(item[2] if item[0] in ("attr", "rep") else item[1:])
    r = " ".join(r.split()).replace(" ", "")
    if len(r) > 60:
        import hashlib
        r = r[:40] + "~" + hashlib.sha1(r.encode("utf-8", "surrogatepass")).hexdigest()[:8]
    return r
