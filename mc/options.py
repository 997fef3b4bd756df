"""The formatter option space and the documents it is crossed with (C04, C06)."""
from __future__ import annotations
import itertools
from . import vocab as V, doc as D, space
from .vocab import S, W
from .doc import SINGLE

INDENTS, SPACERS, QUOTES, NEWLINES = tuple(range(9)), (" ", "\t"), ('"', "'"), ("\n", "\r\n", " ")
BOOLS = list(itertools.product((False, True), repeat=3))  # end_comment, align_values, separate_complex_types
NAMES = ("indent", "spacer", "quote", "newlinechar", "end_comment", "align_values", "separate_complex_types")


def product(indents=INDENTS, spacers=SPACERS, quotes=QUOTES, newlines=NEWLINES, bools=BOOLS):
    """option tuples; a space as newlinechar only when no comments are emitted"""
    return [(i, s, q, n) + b for i in indents for s in spacers for q in quotes for n in newlines for b in bools if not (n == " " and b[0])]


FULL = product()                                     # 720
SMALL = product((0, 4), (" ",), QUOTES, NEWLINES, BOOLS)         # 80
DEFAULT = (4, " ", '"', "\n", False, False, False)


def kw(o):
    return dict(zip(NAMES, o))


def has_quote(d, q):
    """a string of the dictionary contains the quote character (unescaped)"""
    if isinstance(d, dict):
        return any((isinstance(k, str) and q in k) or has_quote(v, q) for k, v in d.items())
    if isinstance(d, (list, tuple)):
        return any(has_quote(v, q) for v in d)
    return isinstance(d, str) and q in d.replace("\\" + q, "")


def fits(t, items, item):
    if item[0] == "kv" or (item[0] == "block" and item[1] in SINGLE) or item[0] in ("proj", "pattern"):
        return not any(x[0] == item[0] and x[1] == item[1] for x in items)
    return True


def kitchen(t, which, reverse=False):
    """one object of type t holding every keyword of its schema (sample number `which` of each)"""
    items = []
    for k in V.slots(t):
        sm = V.slot_samples(t, k, False)
        if sm:
            it = sm[which % len(sm)][1]
            if fits(t, items, it):
                items.append(it)
    if reverse:
        items.reverse()
        if t in ("symbol",):  # the first keyword of a SYMBOL block decides how SYMBOL is read
            items.sort(key=lambda i: i[0] != "attr")
    return [("block", t, items)]


def kitchens():
    out = []
    for t in V.TYPES:
        for w in range(6):
            for r in (False, True):
                out.append(("kitchen %s #%d%s" % (t, w, " rev" if r else ""), kitchen(t, w, r)))
    return out


def slots():
    """every (type, keyword) between two simple keywords, one value; and after a block"""
    out = []
    for t in V.TYPES:
        s1, s2 = space.SIMPLE[t], space.SIMPLE2[t]
        for k in V.slots(t):
            sm = V.slot_samples(t, k, False)
            if not sm:
                continue
            it = sm[0][1]
            pre = s1 if s1[1] != k else None
            post = s2 if s2[1] != k else None
            if post is not None and post[0] == "kv" and it[0] == "kv":
                post = None
            out.append(("slot %s.%s" % (t, k), [("block", t, [x for x in (pre, it, post) if x])]))
    return out


ALIGNS = [
    # keyword lengths around the indentation multiples; keywords of one to 20 letters next to each other
    ("align class", [("block", "class", [("attr", k, v) for k, v in (("name", S("a")), ("text", S("b")), ("title", S("c")), ("debug", ("int", "1")), ("group", S("d")),
                                         ("keyimage", S("k.png")), ("expression", ("expr", "( [a] > 1 )")), ("minscaledenom", ("int", "1")), ("symbol", S("x")), ("size", ("int", "4")))])]),
    ("align metadata", [("kv", "metadata", [(S("a" * n), S("v%d" % n)) for n in range(1, 25)])]),
    ("align metadata words", [("kv", "metadata", [(S(w), S("v")) for w in ("metadata", "validation", "values", "connectionoptions", "pattern", "projection", "points", "config", "layers", "classes", "x")])]),
    ("align metadata words only", [("kv", "metadata", [(S(w), S("value")) for w in ("connectionoptions", "points")])]),
    ("align metadata list keys", [("kv", "metadata", [(S("layers"), S("value")), (S("symbols"), S("x"))])]),
    ("align processing", [("block", "layer", [("rep", "processing", S("A=1")), ("attr", "type", W("POINT")), ("rep", "processing", S("B=2")), ("attr", "name", S("n"))])]),
    ("align config", [("block", "map", [("config", S("A"), S("1")), ("attr", "name", S("m")), ("config", S("MS_ERRORFILE"), S("stderr")), ("attr", "shapepath", S("d"))])]),
    ("querymap style", [("block", "map", [("block", "querymap", [("attr", "style", W("HILITE")), ("attr", "size", ("list", [("int", "1"), ("int", "2")])), ("attr", "color", ("hex", "#aabbcc"))])])]),
    ("root querymap", [("block", "querymap", [("attr", "style", W("HILITE")), ("attr", "status", W("ON"))])]),
    ("root class symbol", [("block", "class", [("attr", "symbol", S("s")), ("attr", "name", S("n")), ("block", "style", [("attr", "symbol", S("q")), ("attr", "size", ("int", "1"))]), ("attr", "size", ("int", "2"))])]),
    ("root style symbol", [("block", "style", [("attr", "symbol", S("s")), ("pattern", [("1", "2")]), ("attr", "size", ("int", "3"))])]),
    ("multi line", [("block", "layer", [("attr", "data", S("a\nb  c\n")), ("kv", "metadata", [(S("x"), S("1\n 2\n\n3"))]), ("attr", "type", W("LINE"))])]),
    ("strings", [("block", "layer", [("attr", "name", S("  two  spaces ")), ("attr", "group", S("tab\there")), ("rep", "processing", S("# no comment")), ("kv", "metadata", [(S("END"), S("END # LAYER"))])])]),
    ("single quotes", [("block", "layer", [("attr", "name", S("it's")), ("attr", "type", W("LINE")), ("kv", "validation", [(S("a"), S("b"))])])]),
    ("double quotes", [("block", "layer", [("attr", "name", S('say "x"')), ("attr", "type", W("LINE")), ("kv", "validation", [(S("a"), S("b"))])])]),
    ("escaped", [("block", "layer", [("attr", "name", S('say \\"x\\"')), ("attr", "group", S("it\\'s"))])]),
    ("expressions", [("block", "layer", [("attr", "filter", ("expr", '( "[a]" = \'x\' )')), ("block", "class", [("attr", "expression", ("lexpr", "{a,b}")), ("attr", "text", ("expr", "( 'a' + [b] )"))]),
                                         ("block", "class", [("attr", "expression", ("istr", "'x'i"))]), ("block", "class", [("attr", "expression", ("regexi", "/a b/i"))])])]),
    ("nested", [("block", "map", [("attr", "name", S("m")), ("block", "layer", [("attr", "name", S("l")), ("block", "class", [("block", "label", [("attr", "text", S("t")), ("block", "style", [("attr", "symbol", S("s"))]),
                                  ("attr", "size", ("int", "4"))]), ("attr", "name", S("late"))]), ("kv", "metadata", [(S("a"), S("b"))]), ("attr", "type", W("POINT")), ("block", "class", [("attr", "name", S("c2"))])]),
                                  ("attr", "units", W("METERS")), ("block", "web", [("kv", "metadata", []), ("attr", "template", S("t"))]), ("proj", "AUTO"), ("attr", "debug", ("int", "1")),
                                  ("block", "layer", [("attr", "type", W("LINE")), ("block", "feature", [("points", [("1", "2")]), ("attr", "text", S("x")), ("points", [("3", "4")])])])])]),
]


def core():
    """documents crossed with the complete option product"""
    docs = [(l, d) for l, d in ALIGNS] + kitchens() + slots() + [("root " + r[1], [r]) for r in space.roots()]
    docs += [("empty %s" % t, [("block", t, [])]) for t in V.TYPES]
    docs += [("roots all", space.roots()), ("two maps", [("block", "map", [space.SIMPLE["map"]])] * 2)]
    for t in V.TYPES:
        c = space.CHILD.get(t)
        if c and t != "symbolset":
            docs.append(("mix %s" % t, [("block", t, [space.SIMPLE[t], ("block", c, [space.SIMPLE[c]]), space.SIMPLE2[t], ("block", c, [space.SIMPLE2[c]])][:4 if c not in SINGLE else 3])]))
    out, seen = [], set()
    for l, d in docs:
        if repr(d) not in seen:
            seen.add(repr(d))
            out.append((l, d))
    return out


_cache = {}


def printer(o):
    from . import impl
    if o not in _cache:
        p = impl.PrettyPrinter(**kw(o))
        if hasattr(p, "validator"):  # one schema cache for all the printers of this process
            if "v" in _cache:
                p.validator = _cache["v"]
            else:
                _cache["v"] = p.validator
        _cache[o] = p
    return _cache[o]
