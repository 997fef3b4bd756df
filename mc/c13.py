"""C13: include_position and include_comments only add hidden keys, and leave the printed text alone (comments aside)."""
from __future__ import annotations
import io, itertools, os, shutil, tempfile
from . import impl, space, options as O, doc as D, vocab as V, layout as L, reader as RD, raw
from .vocab import S, W
from .c12 import snap

PROP = "C13"
BOUNDS = {
    "quick": "~750 core documents (every keyword of every type, odd strings, every root type) x {no comments, comments in all gaps in 8 styles, one comment in each single gap, one keyword per line or all on one line} x the four flag combinations; "
             "every keyword slot x every value sample, duplicates, pairs of roots, odd strings and large documents (groups A, E, F, G, K) with comments in all gaps; all pairs of gaps on the small documents; rejected inputs; all sequences of two raw tokens in 27 contexts; corpus files; printing with 5 option sets; loads, load and open (include files too)",
    "thorough": "the same over groups A-G and K of mc/space.py with 8 comment styles, every gap of every core document x 6 comments, printing with 40 option sets",
}
ASSUMPTIONS = ["values are compared with their types, key order and dictionary classes; only keys named __position__ and __comments__ may differ",
               "printed texts are compared after removal of comments (a line holding nothing else disappears); newline characters without a line break only without comments"]
HEAVY = ("gaps", "pairs", "corpus")
CASE_LIMIT = 120.0
FLAGS = [(True, False), (False, True), (True, True)]  # (comments, position)
HIDDEN = ("__position__", "__comments__")

SETS = [O.DEFAULT, (2, "\t", "'", "\r\n", True, True, True), (0, " ", '"', "\n", False, True, False), (4, " ", '"', "\n", False, False, True), (3, " ", "'", "\n", True, True, False)]
STYLES = {
    "none": lambda i: None, "hash": lambda i: " # h%d\n" % i, "above": lambda i: "\n# a%d\n" % i, "c": lambda i: " /* c%d */ " % i, "clines": lambda i: "\n/* c%d\n l */\n" % i,
    "both": lambda i: " /* x%d */ # y%d\n" % (i, i), "many": lambda i: " # h%d\n# a%d\n/* c%d\n d */ /* e */\n" % (i, i, i), "odd": lambda i: " # \"o%d ' END [x] (\n" % i, "same": lambda i: " # same\n",
    "crlf": lambda i: " # h%d\r\n" % i,
}


def strip(x):
    """x without the bookkeeping keys, in the form of snap()"""
    if isinstance(x, dict):
        return (type(x).__name__, getattr(x, "default_factory", None).__class__.__name__, tuple((k, strip(v)) for k, v in x.items() if k not in HIDDEN))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(strip(v) for v in x))
    return (type(x).__name__, repr(x))


def hidden(x, out):
    if isinstance(x, dict):
        for k, v in x.items():
            if k in HIDDEN:
                out.add(k)
            else:
                hidden(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            hidden(v, out)
    return out


def first_diff(a, b, path="$"):
    if a == b:
        return None
    if a[0] != b[0] or len(a) != len(b):
        return "%s: %s vs %s" % (path, str(a)[:150], str(b)[:150])
    if len(a) == 3:
        if a[1] != b[1]:
            return "%s: default factory %s vs %s" % (path, a[1], b[1])
        ka, kb = [k for k, _ in a[2]], [k for k, _ in b[2]]
        if ka != kb:
            return "%s: keys %r vs %r" % (path, ka, kb)
        for (k, x), (_, y) in zip(a[2], b[2]):
            r = first_diff(x, y, path + "." + str(k))
            if r:
                return r
    if isinstance(a[1], tuple) and isinstance(b[1], tuple):
        if len(a[1]) != len(b[1]):
            return "%s: %d vs %d items" % (path, len(a[1]), len(b[1]))
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            r = first_diff(x, y, path + "[%d]" % i)
            if r:
                return r
    return "%s: %s vs %s" % (path, str(a)[:150], str(b)[:150])


def check(text, acc, sig, loads, sets=SETS[:1], detail=None):
    """loads(text, comments, position) -> dictionary"""
    r0 = impl.attempt(loads, text, False, False)
    acc.trans()
    if r0[0] == "ok":
        p0 = strip(r0[1])
        if hidden(r0[1], set()):
            acc.fail(sig + "|plain", "bookkeeping keys in a plain load", text=text)
            return
        acc.state(p0)
        acc.outcome("loaded")
    else:
        acc.outcome("rejected: " + r0[1])
    prints = {}
    for c, p in FLAGS:
        r = impl.attempt(loads, text, c, p)
        acc.trans()
        acc.trace()
        s = "%s|%s%s" % (sig, "comments" if c else "", "+position" if p else "")
        if r[0] != r0[0] or r[0] == "exc" and r[1] != r0[1]:
            acc.fail(s, "plain load: %s; with bookkeeping: %s" % (str(r0)[:300], str(r)[:300]), text=text)
            return
        if r[0] == "exc":
            continue
        d = r[1]
        g = strip(d)
        if g != p0:
            acc.fail(s, "content differs: %s" % first_diff(p0, g), text=text)
            return
        h = hidden(d, set())
        if not c and "__comments__" in h or not p and "__position__" in h:
            acc.fail(s, "keys %r although not asked for" % (sorted(h),), text=text)
            return
        for o in sets:
            if c and "\n" not in o[3]:
                continue
            if o not in prints:
                prints[o] = impl.attempt(lambda: O.printer(o).pprint(r0[1]))
                acc.trans()
                if prints[o][0] == "ok" and c:
                    prints[o] += (bare(prints[o][1]),)
            a = prints[o]
            b = impl.attempt(lambda: O.printer(o).pprint(d))
            acc.trans()
            if a[0] != b[0] or a[0] == "exc" and a[1] != b[1]:
                acc.fail(s + "|print", "%r: plain %s, with bookkeeping %s" % (o, str(a)[:300], str(b)[:300]), text=text)
                return
            if a[0] != "ok":
                acc.outcome("not printable")
                continue
            if "__position__" in b[1] and "__position__" not in text:
                acc.fail(s + "|print", "%r: __position__ is printed" % (o,), text=text)
                return
            if c:
                if len(a) < 3:
                    a = prints[o] = a + (bare(a[1]),)
                x, y = a[2], bare(b[1])
            else:
                x, y = a[1], b[1]
            if x is None or y is None:
                acc.outcome("printed text not readable")
                if (x is None) != (y is None):
                    acc.fail(s + "|print", "%r: the printed text with comments cannot be read" % (o,), text=text, printed=b[1])
                    return
            elif x != y:
                acc.fail(s + "|print", "%r: printed %r, plain %r" % (o, y[:700], x[:700]), text=text)
                return
            else:
                acc.trace()


def bare(text):
    try:
        return L.strip_comments(text)
    except RD.ReadError:
        return None


def shared_loads(text, c, p):
    return impl.loads_auto(text, comments=c, position=p)


# ---------------------------------------------------------------- texts
def variants(doc, styles, oneline=(False,)):
    toks = D.tokens(doc)
    for ol in oneline:
        seps = [" " if i else "" for i in range(len(toks))] if ol else D.default_seps(toks)
        for st in styles:
            f = STYLES[st]
            ss = [(f(i) or "") + s if f(i) else s for i, s in enumerate(seps)]
            yield "%s%s" % (st, " one line" if ol else ""), D.assemble(toks, ss, (f(len(toks)) or ""))[0]


SINGLE_GAP = [" # h\n", "\n# a\n# b\n", " /* c */ ", "\n/* c\n d */ # e\n", " /* END */ ", "\n\n#\n\n"]
BAD = ["MAP", "MAP # c\nLAYER", "MAP NAME 'x # c\nEND", "MAP # c\n)\nEND", "# only\n", "", "/* a */", "MAP /* open", "END # x", "MAP END # a\nEND # b", "LAYER # x\nMETADATA # y\n'a' # z\nEND END", "LAYER PROJECTION # x\n1 END END", "FEATURE POINTS 1 # c\nEND END",
       "STYLE PATTERN # c\nEND END", "CLASS EXPRESSION ( # c\n[a] = END", "NAME 'x' # c", "MAP INCLUDE # c\nEND", "LAYER TYPE # c\nEND", "MAP NAME 'x' # c\n# d\nNAME 'y' # e\nFOO END", "MAP LAYER LAYER END # d\nEND", "SYMBOLSET # c\nNAME 'x' END"]
# METADATA keys and odd documents for the comment pass
EXTRA = ["LAYER METADATA %s 'v' # c\nEND END" % k for k in ("a", "'A'", '"B c"', "wms_title", "ows:x", "x.y", "\"it's\"", "'say \"x\"'", "'a\\'b'", "'__type__'", "é", "'É'", "\"İx\"", "end1", "'end'", "'metadata'", "1", "'1'", "1.5", "name", "type", "layer", "'LAYER'", "_a", "-a", "a-b", "a/b", "'#a'", "'/*'", "''", "' '")]
EXTRA += [t.replace("METADATA", k).replace("LAYER", w) for t in EXTRA[:6] for k, w in (("VALIDATION", "LAYER"), ("VALUES", "SCALETOKEN"), ("CONNECTIONOPTIONS", "LAYER"), ("METADATA", "MAP"), ("METADATA", "CLASS"))]
EXTRA += ["METADATA # r\n'a' 'b' # c\n'A' 'c' # d\nEND", "VALIDATION # r\n'a' 'b' # c\nEND # e", "LAYER METADATA 'a' 'b' END # 1\nMETADATA # 2\n'c' 'd' # 3\nEND END", "WEB METADATA # a\n# b\nEND # c\nEND", "MAP WEB # a\nMETADATA # b\n'x' 'y'\n# c\nEND\nEND # d\nMETADATA # e\n'z' 'w'\nEND END",
          "LAYER NAME 'a' # 1\nNAME 'b' # 2\nNAME 'c'\nEND", "LAYER PROCESSING 'a' # 1\nPROCESSING 'b' # 2\nEND", "MAP CONFIG 'a' 'b' # 1\nCONFIG 'c' 'd' # 2\nEND", "MAP PROJECTION # 1\n'a' # 2\n'b' # 3\nEND # 4\nPROJECTION # 5\nAUTO # 6\nEND END",
          "FEATURE POINTS # 1\n1 2 # 2\n3 4 END # 3\nPOINTS # 4\n5 6 END END # 5", "STYLE PATTERN # 1\n1 2 # 2\nEND # 3\nSYMBOL # 4\n'x' # 5\nEND", "CLASS SYMBOL 'a' # 1\nSTYLE # 2\nSYMBOL 'b' # 3\nEND SIZE [s] # 4\nEND", "QUERYMAP STYLE NORMAL # 1\nSIZE 1 # 2\n2 # 3\nEND",
          "SYMBOLSET # 1\nSYMBOL # 2\nNAME 'a' # 3\nPOINTS # 4\n1 1 # 5\nEND # 6\nEND # 7\nEND # 8", "LAYER # 1\nCLASS # 2\nEXPRESSION # 3\n( # 4\n[a] # 5\n= 1 # 6\n) # 7\nEND END", "LAYER # 1\nINCLUDE 'x' # 2\nPROCESSING 'p' # 3\nEND", "MAP NAME 'a # b' # c\nEND", "MAP NAME 'a /* b' # c */\nEND", "LAYER DATA 'multi\nline # x\n' # y\nEND",
          "CLASS # a\nEND # b\n# c\nCLASS # d\nEND # e\n# f\nLAYER # g\nEND", "LAYER CLASS STYLE COLOR 1 # 1\n2 # 2\n3 # 3\nEND LABEL # 4\nSTYLE # 5\nOFFSET [a] # 6\n[b] # 7\nEND END END END", "SCALETOKEN NAME 'x' # 1\nVALUES # 2\n'0' 'a' # 3\nEND END", "LAYER SCALETOKEN NAME '%x%' # 1\nVALUES '0' 'a' # 2\nEND # 3\nEND END",
          "LAYER COMPOSITE OPACITY 50 # 1\nCOMPFILTER 'a()' # 2\nCOMPFILTER 'b()' # 3\nEND END", "LAYER IDENTIFY # 1\nEND END", "OUTPUTFORMAT FORMATOPTION 'a=b' # 1\nFORMATOPTION 'c=d' # 2\nEND", "LEADER # 1\nSTYLE # 2\nEND END", "MAP\n\n\n# late\n\n\nEND\n\n# later", "/* a\n b */MAP /* c\n */NAME /* d */'x'/* e\n\n*/END /* f */"]


def cases(tier):
    th = tier == "thorough"
    core = O.core()
    out = []
    for l, d in core:
        out.append(("all", (l, d, len(STYLES) if th else 8, 2)))
    for g, (l, d) in space.documents("ABCDEFGK" if th else "AEFGK", False):
        if g == "A" and not l.endswith("@mid") and not th:
            continue
        out.append(("space", (g + " " + l, d)))
    small = [(l, d) for l, d in core if len(D.tokens(d)) <= (14 if th else 9)]
    seen = set()
    for l, d in core:
        if len(D.tokens(d)) <= (200 if th else 60):
            out.append(("gaps", (l, d, 6 if th else 3)))
    for l, d in small:
        shape = tuple((t.kind, t.role) for t in D.tokens(d)) + (d[0][1],)
        if shape not in seen or th:
            seen.add(shape)
            out.append(("pairs", (l, d)))
    for t in EXTRA + BAD:
        out.append(("text", t))
    for f in space.corpus():
        out.append(("corpus", f))
    for i in range(4):
        out.append(("public", i))
    out.append(("files", 0))
    out += raw.cases(2 if th else 0)
    impl.warm()
    impl.loads("MAP END", comments=True, expand=False)
    for o in SETS:
        O.printer(o).pprint(impl.loads("MAP NAME 'x' END"))
    return out


PUBLIC = EXTRA[:8] + EXTRA[-14:] + BAD[:8]


def step(group, case, acc):
    if group == "all":
        l, d, n, k = case
        for st, text in variants(d, list(STYLES)[:n], (False, True)[:k]):
            check(text, acc, "%s|%s" % (l, st), shared_loads, SETS if st in ("hash", "many", "none") else SETS[:2])
        acc.sample(text)
    elif group == "space":
        l, d = case
        for st, text in variants(d, ("hash", "clines"), (False,)):
            check(text, acc, "%s|%s" % (l, st), shared_loads)
        acc.sample(text)
    elif group == "raw":
        for text in raw.texts(case):
            if not impl.has_include(text):
                check(text, acc, repr(text), shared_loads)
    elif group == "gaps":
        l, d, n = case
        toks = D.tokens(d)
        seps = D.default_seps(toks)
        for g in range(len(toks) + 1):
            for j in range(n):
                ss = list(seps)
                tail = ""
                if g < len(toks):
                    ss[g] = SINGLE_GAP[j] + ss[g]
                else:
                    tail = SINGLE_GAP[j]
                check(D.assemble(toks, ss, tail)[0], acc, "%s|gap %d|%d" % (l, g, j), shared_loads)
    elif group == "pairs":
        l, d = case
        toks = D.tokens(d)
        seps = [" " if i else "" for i in range(len(toks))]
        for g, h in itertools.combinations_with_replacement(range(len(toks) + 1), 2):
            for a, b in ((" # p\n", " # q\n"), (" /* p\n */ ", " # q\n"), ("\n# p\n", " /* q */ ")):
                ss = list(seps) + [""]
                ss[g] += a
                ss[h] += b
                check(D.assemble(toks, ss[:-1], ss[-1])[0], acc, "%s|gaps %d,%d|%s" % (l, g, h, a + b), shared_loads)
        acc.sample(D.assemble(toks, ss[:-1], ss[-1])[0])
    elif group == "text":
        check(case, acc, case, shared_loads, SETS)
        check(case.replace("\n", "\r\n"), acc, "crlf|" + case, shared_loads)
        for w in ("MAP\n%s\nEND", "MAP # w\nLAYER # v\n# u\n%s # t\nEND # s\nEND"):
            check(w % case, acc, "in map|" + w[:6] + case, shared_loads)
        check("# first\n" + case + "\n# last", acc, "framed|" + case, shared_loads)
    elif group == "corpus":
        fn = os.path.join(impl.REPO, case)
        text = open(fn, encoding="utf-8", errors="replace").read()
        check(text, acc, case, shared_loads, SETS)
        check(text, acc, case + "|open", lambda t, c, p: impl.pub.open(fn, expand_includes=False, include_comments=c, include_position=p), ())
        if impl.has_include(text):
            check(text, acc, case + "|open, expanding", lambda t, c, p: impl.pub.open(fn, include_comments=c, include_position=p), SETS[:1])
        # the text with a comment at the end of every line that is not inside a string
        check(commented(text), acc, case + "|commented", shared_loads)
        acc.sample(case)
    elif group == "public":
        for t in PUBLIC[case::4]:
            check(t, acc, "loads|" + t, lambda t, c, p: impl.pub.loads(t, expand_includes=False, include_comments=c, include_position=p), ())
            check(t, acc, "load|" + t, lambda t, c, p: impl.pub.load(io.StringIO(t), expand_includes=False, include_comments=c, include_position=p), ())
            d = tempfile.mkdtemp(prefix="c13-")
            try:
                fn = os.path.join(d, "x.map")
                with open(fn, "w", encoding="utf-8", newline="") as f:
                    f.write(t)
                check(t, acc, "open|" + t, lambda t, c, p: impl.pub.open(fn, expand_includes=False, include_comments=c, include_position=p), ())
                check(t, acc, "load file|" + t, lambda t, c, p: load_file(fn, c, p), ())
            finally:
                shutil.rmtree(d)
    elif group == "files":
        d = tempfile.mkdtemp(prefix="c13-")
        try:
            for n, inc in enumerate(("NAME 'i' # in\n# end\n", "# in\nLAYER # l\nEND # m", "/* a\n b */\n", "PROJECTION # p\n'x' # q\nEND", "")):
                fn = os.path.join(d, "m%d.map" % n)
                open(os.path.join(d, "i%d.map" % n), "w").write(inc)
                open(fn, "w").write("# a\nMAP # b\nDEBUG 1 # c\nINCLUDE 'i%d.map' # d\n# e\nUNITS METERS # f\nEND # g\n" % n)
                check("", acc, "include|%d" % n, lambda t, c, p: impl.pub.open(fn, include_comments=c, include_position=p), SETS)
                check("", acc, "include|load|%d" % n, lambda t, c, p: load_file(fn, c, p, True), SETS)
        finally:
            shutil.rmtree(d)


def load_file(fn, c, p, e=False):
    with open(fn, encoding="utf-8") as f:
        return impl.pub.load(f, expand_includes=e, include_comments=c, include_position=p)


def commented(text):
    try:
        toks = RD.scan(text)
    except RD.ReadError:
        return text
    spans = sorted((t.pos, t.end) for t in toks)
    out, n, j = [], 0, 0
    for i, ch in enumerate(text):
        if ch == "\n":
            while j < len(spans) and spans[j][1] <= i:
                j += 1
            if not (j < len(spans) and spans[j][0] < i):
                n += 1
                out.append(" # k%d" % n)
        out.append(ch)
    return "".join(out)
