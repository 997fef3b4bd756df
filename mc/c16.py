"""C16: the layout of printed text: line breaks, one keyword per line, indentation, END, end comments, alignment."""
from __future__ import annotations
import os, re
from . import impl, space, options as O, doc as D, layout as L, reader as RD
from .vocab import S, W
from .c13 import variants

PROP = "C16"
BOUNDS = {
    "quick": "the complete product of the options (indent 0-8 x spacer x quote x newlinechar x 3 booleans = 720 sets) x ~620 core documents (every keyword of every type, every type with all its keywords, alignment and string corner cases, dictionaries put together by hand); "
             "80 sets x corpus files; 24 sets x containment paths up to depth 5, depth 1-40 chains, groups D, E, F and G; keyword lengths 1-40 x indents 0-8 for the alignment column; indents up to 20; 315 sets with unusual spacers and line breaks x a quarter of the core documents",
    "thorough": "720 sets x all of these and groups C, E, G of mc/space.py",
}
ASSUMPTIONS = ["the text printed with indent 0 and no other option is read by an independent reader into lines and depths; the texts under all other options are compared with what that reading demands, character for character (runs of blanks between a key and its value are free where no alignment is promised)",
               "repeated keywords (PROCESSING, ...) count as simple keywords for the alignment column, CONFIG and the pairs of METADATA-like blocks do not",
               "multi-line strings keep their own line breaks"]
HEAVY = ("corpus", "core", "deep", "align")
CASE_LIMIT = 120.0
FEW = O.product((0, 3, 4), (" ", "\t"), ('"',), ("\n", "\r\n"), [(False, False, False), (True, True, True)])


# line breaks with more than a line break in them, and spacers of several characters
ODD = O.product((0, 1, 3), (" ", "\t", "  ", " \t", "\n"), ('"',), ("\n\t", "\n ", " \n", "\n\n", "\r", "\t\r\n", "\n# x\n"), [(False, False, False), (True, False, False), (True, True, True)])


class Line:
    __slots__ = ("depth", "kind", "head", "rest", "obj", "name")

    def __init__(self, *a):
        self.depth, self.kind, self.head, self.rest, self.obj, self.name = a


def base_lines(text):
    """(lines of the text printed with indent 0, None) or (None, what is wrong with it)"""
    recs, _ = L.records(text)
    out, p = [], 0
    for r in recs:
        if r.first.pos != p:
            return None, "%r before %r is not the start of a line" % (text[max(0, p - 30):r.first.pos], r.first.raw)
        e = r.last.end
        rest = "" if r.value is None or r.value is r.first else text[r.value.pos:e]
        head = text[r.first.pos:r.value.pos].rstrip(" \t") if rest else text[r.first.pos:e]
        out.append(Line(r.depth, r.kind, head, rest, r.obj, r.name))
        if e < len(text):
            if text[e] != "\n":
                return None, "%r after %r is not a line break" % (text[e:e + 20], text[r.first.pos:e])
            e += 1
        p = e
    if p < len(text):
        return None, "%r follows the last line" % text[p:]
    if text.endswith("\n"):
        return None, "line break at the end"
    # blocks: every opener has its END
    stack = []
    for l in out:
        if l.kind == "open":
            stack.append(l)
        elif l.kind == "end":
            if not stack or stack[-1].obj != l.obj or l.head.upper() != "END" or stack.pop().depth != l.depth:
                return None, "END does not belong to its opener"
        elif l.depth != len(stack):
            return None, "depth of %r" % l.head
    if stack:
        return None, "%s is not closed" % stack[-1].head
    return out, None


def columns(lines, indent):
    longest = {}
    for l in lines:
        if l.kind in ("attr", "rep"):
            longest[l.obj] = max(longest.get(l.obj, 0), len(l.head))
    n = max(1, indent)
    return {o: (m // n + 1) * n for o, m in longest.items()}


def expected(lines, o):
    """(the text as printed today, regular expression of all texts with the promised layout)"""
    indent, spacer, quote, nl, endc, align, sep = o
    col = columns(lines, indent) if align else {}
    pad2 = {}
    if align:  # pairs: not promised, only used for the fast comparison
        for l in lines:
            if l.kind == "pair":
                pad2[l.obj] = max(pad2.get(l.obj, 0), len(l.head))
        n = max(1, indent)
        pad2 = {k: (m // n + 1) * n for k, m in pad2.items()}
    out = []
    for l in lines:
        s = spacer * (indent * l.depth) + l.head
        if l.kind in ("attr", "rep") and align:
            s += " " * (col[l.obj] - len(l.head)) + l.rest
        elif l.kind == "pair" and align:
            s += " " * (pad2[l.obj] - len(l.head)) + l.rest
        elif l.rest:
            s += " " + l.rest
        elif l.kind == "end" and endc:
            s += " # " + l.name.upper()
        out.append(s)
    return nl.join(out)


def pattern(lines, o):
    indent, spacer, quote, nl, endc, align, sep = o
    col = columns(lines, indent) if align else {}
    out = []
    for l in lines:
        s = re.escape(spacer * (indent * l.depth) + l.head)
        if l.kind in ("attr", "rep") and align:
            s += "[ \t]{%d}" % (col[l.obj] - len(l.head)) + re.escape(l.rest)
        elif l.rest:  # a quoted key may touch its value
            s += "[ \t]%s" % ("*" if l.kind == "pair" and l.head[-1] in "'\"" else "+") + re.escape(l.rest)
        elif l.kind == "end" and endc:
            s += " \\# " + re.escape(l.name.upper())
        out.append(s)
    return re.compile(re.escape(nl).join(out), re.S)


def sweep(d, sets, lab, acc, printer=None):
    prn = printer or (lambda o, x: O.printer(o).pprint(x))
    bases = {}
    for o in sorted(sets, key=lambda o: o[6]):  # separating may reorder the dictionary it is given
        k = (o[2], o[6])
        if k not in bases:
            r = impl.attempt(prn, (0, " ", o[2], "\n", False, False, o[6]), d)
            acc.trans()
            if r[0] != "ok":
                bases[k] = None
                acc.outcome("not printable")
                continue
            try:
                lines, bad = base_lines(r[1])
            except RD.ReadError as e:
                if O.has_quote(d, o[2]) or "\\" in repr(d):
                    acc.outcome("string with the quote character")
                else:
                    acc.fail(lab + "|read", "the text printed with indent 0 cannot be read: %s: %r" % (e, r[1][:900]))
                bases[k] = None
                continue
            if bad:
                if not O.has_quote(d, o[2]):
                    acc.fail(lab + "|%r" % (k,), "indent 0: %s: %r" % (bad, r[1][:900]))
                bases[k] = None
                continue
            bases[k] = lines
        lines = bases[k]
        if lines is None:
            continue
        r = impl.attempt(prn, o, d)
        acc.trans()
        if r[0] != "ok":
            acc.fail("%s|%r" % (lab, o), "indent 0 prints, these options: %s" % (r,))
            return
        t = r[1]
        acc.trace()
        acc.state(t)
        if t == expected(lines, o):
            continue
        if not pattern(lines, o).fullmatch(t):
            acc.fail("%s|%r" % (lab, o), "layout: printed %r, expected like %r" % (t[:1500], expected(lines, o)[:1500]))
            return
        acc.outcome("other blanks")


# ---------------------------------------------------------------- dictionaries put together by hand
def by_hand():
    mk = impl.loads
    out = []
    l = mk("LAYER NAME 'x' TYPE POINT END")
    l["processing"] = "A=1"
    l["projection"] = "init=epsg:4326"
    out.append(("projection and processing as strings", l))
    l = mk("LAYER NAME 'x' END")
    l["projection"] = ["auto"]
    l["features"] = [{"__type__": "feature", "points": [(1, 2)]}]
    out.append(("auto projection", l))
    l["validation"] = {"a": "b", "longer_key": "c"}
    l["classes"] = [{"__type__": "class", "name": "c", "styles": [{"__type__": "style", "color": [1, 2, 3], "pattern": [[1, 2], (3, 4)]}]}, {"__type__": "class"}]
    out.append(("plain dictionaries", l))
    m = impl.pub.create("map")
    m["layers"] = [impl.pub.create("layer"), impl.pub.create("layer", 7.0)]
    m["config"] = {"MS_ERRORFILE": "stderr", "x": "y"}
    m["metadata"] = {"__type__": "metadata", "a": "b"}
    m["web"] = {"__type__": "web", "metadata": {"__type__": "metadata", "c": "d"}, "validation": {"e": "f"}}
    out.append(("created", m))
    out.append(("list", [m, l, mk("CLASS END")]))
    f = {"__type__": "feature", "points": [[[1, 2], [3, 4]], [[5, 6]]], "text": "x"}
    out.append(("points twice", f))
    out.append(("plain nested", {"__type__": "map", "layers": [{"__type__": "layer", "name": "x", "features": [f, f], "metadata": {"k": "v"}}], "name": "after", "legend": {"__type__": "legend", "labels": [{"__type__": "label", "size": 4}]}}))
    out.append(("empty lists", {"__type__": "layer", "classes": [], "name": "x", "metadata": {}, "projection": []}))
    return out


def chain(n, types):
    """n nested blocks"""
    item = None
    for i in range(n, 0, -1):
        t = types[i % len(types)]
        items = [("attr", "name", S("n%d" % i))]
        if item:
            items.append(item)
            items.append(("attr", "group", S("after")))
        item = ("block", t, items)
    return [item]


def align_dicts():
    """keyword lengths 1..40 (names outside the vocabulary are printed as strings or numbers)"""
    out = []
    for n in range(1, 41):
        out.append(("len %d" % n, {"__type__": "layer", "x" * n: 1, "name": "n"}))
        out.append(("len %d last" % n, {"__type__": "class", "name": "n", "metadata": {"y" * 60: "z"}, "x" * n: 1}))
        out.append(("len %d, blocks longer" % n, {"__type__": "layer", "k" * n: 2, "connectionoptions": {"a": "b"}, "composites": [{"__type__": "composite", "opacity": 5}], "features": [{"__type__": "feature", "points": [[1, 1]]}], "projection": ["a"]}))
        out.append(("pair len %d" % n, {"__type__": "layer", "metadata": {"m" * n: "v", "q": "w"}, "validation": {"z": "v"}, "name": "x"}))
        out.append(("config len %d" % n, {"__type__": "map", "config": {"c" * n: "v"}, "name": "x"}))
    for k in ("processing", "include"):
        out.append(("repeated " + k, {"__type__": "layer", k: ["a", "b"], "name": "x"}))
    out.append(("formatoption", {"__type__": "outputformat", "formatoption": ["a", "b"], "name": "x", "driver": "AGG/PNG"}))
    out.append(("compfilter", {"__type__": "composite", "compfilter": ["a()", "b()"], "opacity": 5}))
    return out


def cases(tier):
    th = tier == "thorough"
    out = [("core", c) for c in O.core()]
    for i in range(len(by_hand())):
        out.append(("hand", i))
    for f in space.corpus():
        out.append(("corpus", (f, th)))
    for n in range(1, 41):
        out.append(("deep", (n, th)))
    for i in range(len(align_dicts())):
        out.append(("align", i))
    for g, (l, d) in space.documents("BCDEFG" if th else "BDEFG", False):
        out.append(("space", ("%s %s" % (g, l), d, th)))
    out += [("public", c) for c in O.ALIGNS]
    out += [("comments", c) for c in O.core()]
    out += [("odd", c) for i, c in enumerate(O.core()) if th or i % 4 == 0]
    impl.warm()
    for o in FEW[:1]:
        O.printer(o).pprint(impl.loads("MAP NAME 'x' END"))
    return out


def load(d, acc):
    r = impl.attempt(impl.loads, D.render(d))
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted")
        return None
    return r[1]


def step(group, case, acc):
    if group == "core":
        l, d = case
        x = load(d, acc)
        if x is not None:
            sweep(x, O.FULL, l, acc)
            acc.sample(l)
    elif group == "odd":
        l, d = case
        x = load(d, acc)
        if x is not None:
            sweep(x, ODD, "odd " + l, acc)
    elif group == "hand":
        l, d = by_hand()[case]
        sweep(d, O.FULL, "hand " + l, acc)
        acc.sample(l)
    elif group == "corpus":
        f, th = case
        r = impl.attempt(lambda: impl.loads_auto(open(os.path.join(impl.REPO, f), encoding="utf-8", errors="replace").read()))
        if r[0] == "ok":
            try:
                sweep(r[1], O.FULL if th else O.SMALL, f, acc)
            except RecursionError:
                raise
            acc.sample(f)
        else:
            acc.outcome("not accepted")
    elif group == "deep":
        n, th = case
        for types in (("layer", "class"), ("class", "style", "label"), ("map",)):
            x = load(chain(n, types), acc)
            if x is not None:
                sweep(x, O.FULL if th else FEW, "deep %d %s" % (n, types), acc)
    elif group == "align":
        l, d = align_dicts()[case]
        sets = O.product(tuple(range(21)), (" ", "\t"), ('"',), ("\n",), [(False, True, False), (False, False, False), (True, True, True)])
        sweep(d, sets, "align " + l, acc)
        acc.sample(l)
    elif group == "space":
        l, d, th = case
        x = load(d, acc)
        if x is not None:
            sweep(x, O.FULL if th else FEW, l, acc)
            acc.sample(l)
    elif group == "public":
        l, d = case
        x = load(d, acc)
        sets = O.product((0, 1, 4), (" ", "\t"), ('"',), ("\n", "\r\n"), [(False, False, False), (True, True, False), (False, True, True)])
        sweep(x, sets, "public " + l, acc, lambda o, y: impl.pub.dumps(y, **O.kw(o)))
    elif group == "comments":
        # comment lines aside: with one-line comments kept, every line break is still newlinechar and the rest keeps its layout
        l, d = case
        for st, text in variants(d, ("hash", "above", "c")):
            r, p = impl.attempt(impl.loads, text, comments=True), impl.attempt(impl.loads, text)
            if r[0] != "ok" or p[0] != "ok":
                continue
            for o in ((4, " ", '"', "\r\n", False, False, False), (2, "\t", '"', "\r\n", True, True, True), (3, " ", '"', "\n", False, True, False)):
                t, u = impl.attempt(O.printer(o).pprint, r[1]), impl.attempt(O.printer(o).pprint, p[1])
                acc.trans(2)
                if t[0] != "ok" or u[0] != "ok" or O.has_quote(p[1], '"'):
                    continue
                acc.trace()
                inner = u[1].replace("\r\n", "").count("\n")
                if o[3] == "\r\n" and t[1].replace("\r\n", "").count("\n") != inner:
                    acc.fail("comments %s|%s|%r" % (l, st, o), "a line break which is not newlinechar: %r" % t[1][:900], text=text)
                    break
                try:
                    a, b = L.strip_comments(t[1]), L.strip_comments(u[1])
                except RD.ReadError:
                    continue
                if a != b and [x.rstrip() for x in a.split("\n")] != [x.rstrip() for x in b.split("\n")]:
                    acc.fail("comments %s|%s|%r" % (l, st, o), "comments aside, the layout is %r, without comments %r" % (a[:700], b[:700]), text=text)
                    break
