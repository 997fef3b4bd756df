"""Document model: an independent description of Mapfile documents.

A document is an AST written with plain tuples; this module knows how to render it to text
(token by token, under a layout chosen by the caller, remembering where every token landed)
and what dictionary the documented text-to-dict contract assigns to it.  Nothing here imports
mappyfile.

values   ('str', s)            free string, written quoted
         ('word', w)           bare word (enumerated value, path, bare string)
         ('int', text) ('num', text) ('bool', text)
         ('hex', '#aabbcc')    quoted colour
         ('bind', name)        [name]
         ('expr', src[, norm]) parenthesised / NOT expression
         ('regex', '/re/') ('regexi', '/re/i') ('istr', "'s'i") ('lexpr', '{a,b}')
         ('rtvar', '%v%')
         ('list', [values])    several tokens
items    ('attr', key, value)
         ('rep', key, value)                repeatable keyword
         ('block', type, [items])
         ('kv', type, [(kvalue, vvalue)])   METADATA VALIDATION VALUES CONNECTIONOPTIONS
         ('config', kvalue, vvalue)
         ('proj', [values] | 'AUTO')
         ('points', [(xtext, ytext)]) ('pattern', [(xtext, ytext)])
document [root items]  (block or kv)
"""
from __future__ import annotations
import re

REPEATED = ("processing", "formatoption", "include", "compfilter")
SINGLE = {"cluster", "grid", "leader", "legend", "querymap", "reference", "scalebar", "web"}
PLURAL = {"class": "classes", "composite": "composites", "feature": "features", "join": "joins",
          "label": "labels", "layer": "layers", "outputformat": "outputformats",
          "scaletoken": "scaletokens", "style": "styles", "symbol": "symbols", "map": "maps"}
BLOCK_TYPES = ["class", "cluster", "composite", "feature", "grid", "join", "label", "layer",
               "leader", "legend", "map", "outputformat", "querymap", "reference", "scalebar",
               "scaletoken", "style", "web", "symbol"]
KV_TYPES = ("metadata", "validation", "values", "connectionoptions")
OBJECT_LIST_KEYS = {"layers", "classes", "styles", "symbols", "labels", "outputformats",
                    "features", "scaletokens", "composites", "joins"}


# ---------------------------------------------------------------- expected dictionary
def num(text):
    return float(text) if re.search(r"[.eE]", text) else int(text)


def vexp(v):
    k = v[0]
    if k in ("str", "word", "regex", "regexi", "istr", "lexpr", "rtvar"):
        return v[1]
    if k in ("int", "num"):
        return num(v[1])
    if k == "bool":
        return v[1].lower() == "true"
    if k == "hex":
        return v[1].lower()
    if k == "bind":
        return "[%s]" % v[1]
    if k == "expr":
        return v[2] if len(v) > 2 else v[1]
    if k == "list":
        return [vexp(x) for x in v[1]]
    raise ValueError(v)


def kvdict(type_, pairs):
    d = {}
    for k, v in pairs:
        d[vexp(k).lower()] = vexp(v)
    d["__type__"] = type_
    return d


def expected_block(type_, items):
    d = {"__type__": type_}
    npoints = 0
    for it in items:
        k = it[0]
        if k == "attr":
            d[it[1].lower()] = vexp(it[2])
        elif k == "rep":
            d.setdefault(it[1].lower(), []).append(vexp(it[2]))
        elif k == "block":
            sub = expected_block(it[1], it[2])
            if it[1] in SINGLE:
                d[it[1]] = sub
            else:
                d.setdefault(PLURAL[it[1]], []).append(sub)
        elif k == "kv":
            d[it[1]] = kvdict(it[1], it[2])
        elif k == "config":
            d.setdefault("config", {})[vexp(it[1]).lower()] = vexp(it[2])
        elif k == "proj":
            d["projection"] = ["AUTO"] if it[1] == "AUTO" else [vexp(s) for s in it[1]]
        elif k == "points":
            pts = [[num(a), num(b)] for a, b in it[1]]
            npoints += 1
            if npoints == 1:
                d["points"] = pts
            elif npoints == 2:
                d["points"] = [d["points"], pts]
            else:
                d["points"].append(pts)
        elif k == "pattern":
            d["pattern"] = [[num(a), num(b)] for a, b in it[1]]
        else:
            raise ValueError(it)
    return d


def expected(doc):
    out = []
    for it in doc:
        out.append(expected_block(it[1], it[2]) if it[0] == "block" else kvdict(it[1], it[2]))
    return out[0] if len(out) == 1 else out


# ---------------------------------------------------------------- tokens
class Tok:
    """one source token. kind: open | key | val | end; path: AST path of the item it belongs to"""
    __slots__ = ("text", "kind", "path", "role", "depth", "v")

    def __init__(self, text, kind, path, depth, role=None, v=None):
        self.text, self.kind, self.path, self.depth, self.role, self.v = text, kind, path, depth, role, v

    def __repr__(self):
        return "Tok(%r,%s,%s)" % (self.text, self.kind, self.path)


def q(s, prefer='"'):
    """quote s with the preferred quote character, or the other one if s contains it"""
    other = "'" if prefer == '"' else '"'
    if prefer not in s:
        return prefer + s + prefer
    if other not in s:
        return other + s + other
    raise ValueError("string with both quotes: %r" % s)


def vtoks(v, prefer='"'):
    k = v[0]
    if k == "str":
        return [q(v[1], prefer)]
    if k == "hex":
        return [q(v[1], prefer)]
    if k == "bind":
        return ["[%s]" % v[1]]
    if k == "list":
        out = []
        for x in v[1]:
            out += vtoks(x, prefer)
        return out
    return [v[1]]


def tokens(doc, prefer='"'):
    out = []

    def emit_item(it, path, depth):
        k = it[0]
        if k in ("attr", "rep"):
            out.append(Tok(it[1].upper(), "key", path, depth, k))
            for t in vtoks(it[2], prefer):
                out.append(Tok(t, "val", path, depth, k, it[2]))
        elif k == "block":
            out.append(Tok(it[1].upper(), "open", path, depth, "block"))
            for i, sub in enumerate(it[2]):
                emit_item(sub, path + (i,), depth + 1)
            out.append(Tok("END", "end", path, depth, "block"))
        elif k == "kv":
            out.append(Tok(it[1].upper(), "open", path, depth, "kv"))
            for i, (a, b) in enumerate(it[2]):
                out.append(Tok(vtoks(a, prefer)[0], "key", path + (i,), depth + 1, "kvpair", a))
                out.append(Tok(vtoks(b, prefer)[0], "val", path + (i,), depth + 1, "kvpair", b))
            out.append(Tok("END", "end", path, depth, "kv"))
        elif k == "config":
            out.append(Tok("CONFIG", "key", path, depth, "config"))
            out.append(Tok(vtoks(it[1], prefer)[0], "val", path, depth, "config", it[1]))
            out.append(Tok(vtoks(it[2], prefer)[0], "val", path, depth, "config", it[2]))
        elif k == "proj":
            out.append(Tok("PROJECTION", "open", path, depth, "proj"))
            if it[1] == "AUTO":
                out.append(Tok("AUTO", "val", path, depth + 1, "projval"))
            else:
                for s in it[1]:
                    out.append(Tok(vtoks(s, prefer)[0], "val", path, depth + 1, "projval", s))
            out.append(Tok("END", "end", path, depth, "proj"))
        elif k in ("points", "pattern"):
            out.append(Tok(k.upper(), "open", path, depth, k))
            for a, b in it[1]:
                out.append(Tok(a, "val", path, depth + 1, k + "x"))
                out.append(Tok(b, "val", path, depth + 1, k + "y"))
            out.append(Tok("END", "end", path, depth, k))
        else:
            raise ValueError(it)

    for i, it in enumerate(doc):
        emit_item(it, (i,), 0)
    return out


def default_seps(toks, indent="  ", nl="\n"):
    """separator put *before* each token: one keyword per line, nested indentation"""
    seps = []
    for i, t in enumerate(toks):
        if i == 0:
            seps.append("")
        elif t.kind in ("open", "key", "end") or t.role in ("projval", "pointsx", "patternx"):
            seps.append(nl + indent * t.depth)
        else:
            seps.append(" ")
    return seps


def assemble(toks, seps, tail=""):
    """text plus the 1-based (line, column) of every token"""
    parts, pos = [], []
    line, col = 1, 1
    for t, s in zip(toks, seps):
        for piece in (s, t.text):
            if piece is t.text:
                pos.append((line, col))
            n = piece.count("\n")
            if n:
                line += n
                col = len(piece) - piece.rfind("\n")
            else:
                col += len(piece)
            parts.append(piece)
    parts.append(tail)
    return "".join(parts), pos


def render(doc, prefer='"', indent="  ", nl="\n"):
    t = tokens(doc, prefer)
    return assemble(t, default_seps(t, indent, nl))[0]


# ---------------------------------------------------------------- comparison
def canon(x, hidden=True, keep=("__type__",)):
    """order- and type-sensitive canonical form; tuples == lists, any mapping == dict.
    hidden=False drops __name__ keys other than those in keep."""
    if isinstance(x, dict):
        return ("D",) + tuple((k, canon(v, hidden, keep)) for k, v in x.items()
                              if hidden or not (isinstance(k, str) and k.startswith("__") and k.endswith("__")) or k in keep)
    if isinstance(x, (list, tuple)):
        return ("L",) + tuple(canon(v, hidden, keep) for v in x)
    if isinstance(x, bool):
        return ("b", x)
    if isinstance(x, float):
        return ("f", repr(x))
    if isinstance(x, int):
        return ("i", x)
    if isinstance(x, str):
        return ("s", str(x))
    return (type(x).__name__, repr(x))


def plain(c):
    """canonical form back to readable python"""
    if c[0] == "D":
        return {k: plain(v) for k, v in c[1:]}
    if c[0] == "L":
        return [plain(v) for v in c[1:]]
    return c[1]


def diff(a, b, path="$"):
    """first difference between two canonical forms, as text (None if equal)"""
    if a == b:
        return None
    if a[0] != b[0]:
        return "%s: %s %r vs %s %r" % (path, a[0], plain(a), b[0], plain(b))
    if a[0] == "D":
        ka, kb = [k for k, _ in a[1:]], [k for k, _ in b[1:]]
        if ka != kb:
            return "%s: keys %r vs %r" % (path, ka, kb)
        for (k, x), (_, y) in zip(a[1:], b[1:]):
            r = diff(x, y, path + "." + str(k))
            if r:
                return r
    if a[0] == "L":
        if len(a) != len(b):
            return "%s: length %d vs %d (%r vs %r)" % (path, len(a) - 1, len(b) - 1, plain(a), plain(b))
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            r = diff(x, y, path + "[%d]" % i)
            if r:
                return r
    return "%s: %r vs %r" % (path, plain(a), plain(b))
