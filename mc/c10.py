"""C10: normalised expressions denote the expression that was written.

Every expression tree up to a size is generated, written with every choice of (redundant) parentheses,
loaded, and the stored string is read back by an independent precedence parser (exprmodel.py) and
compared with the tree that was generated; then dumped and loaded again.
"""
from __future__ import annotations
import itertools, re
from . import impl, exprmodel as X

PROP = "C10"
ASSUMPTIONS = ["NOT is only written where MapServer's grammar allows it unparenthesised (leftmost operand of a comparison chain); arithmetic operators are surrounded by blanks "
               "('5 -1' is lexed as two numbers by mappyfile and rejected)",
               "an unparenthesised chain of * / % ^ is read left-associatively (one precedence level, as the property lists them)"]
BOUNDS = {
    "quick": "all trees with 1 operator over 36 operator spellings x 40 operand spellings (both sides); all trees with 2 operators over all spellings x every subset of redundant parentheses; "
             "all trees with 3 operators over 21 spellings x every subset of redundant parentheses on the inner nodes; trees with 4 operators over 5 representatives, minimal parentheses; "
             "8 layouts; 9 positions; operand forms nested in lists and function arguments",
    "thorough": "as quick, with 3 operators over 27 spellings, 4 operators over 8 representatives with every subset of redundant parentheses and 5 operators over 4 representatives",
}
HEAVY = ()
CASE_LIMIT = 120.0
CHUNK = 40
BATCH = 24

# ---------------------------------------------------------------- operators
LEVEL = {"OR": 1, "AND": 2, "NOT": 3, "cmp": 4, "+": 5, "-": 5, "*": 6, "/": 6, "%": 6, "^": 6, "neg": 7}
ORS, ANDS, NOTS = ["OR", "||", "or"], ["AND", "&&", "And"], ["NOT", "!", "not"]
CMPS = ["=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*", "IN", "in", "NE", "ne", "EQ", "eq", "GE", "ge", "GT", "gt", "LE", "le", "LT", "lt", "LIKE", "like"]
ARITH = ["+", "-", "*", "/", "%", "^"]
BIN = [("OR", s) for s in ORS] + [("AND", s) for s in ANDS] + [("cmp", s) for s in CMPS] + [(s, s) for s in ARITH]
UN = [("NOT", s) for s in NOTS] + [("neg", "-")]
REP3 = [("OR", "OR"), ("AND", "&&"), ("cmp", "="), ("cmp", "~"), ("+", "+"), ("-", "-"), ("*", "*"), ("/", "/"), ("%", "%"), ("^", "^")], [("NOT", "NOT"), ("neg", "-")]
REP3T = [("OR", "OR"), ("OR", "||"), ("AND", "&&"), ("AND", "and")] + [("cmp", s) for s in ("=", "~", "~*", "!=", "IN", "eq", "LIKE", "<=")] + [(s, s) for s in ARITH], [("NOT", "!"), ("NOT", "NOT"), ("neg", "-")]
REP3TT = [b for b in BIN if b[1] not in ("or", "And", "in", "ne", "eq", "ge", "gt", "le", "lt", "like")], UN[:2] + UN[3:]
REP4 = [("OR", "||"), ("AND", "AND"), ("cmp", "="), ("-", "-"), ("*", "*")], [("NOT", "!"), ("neg", "-")]
REP4T = [("OR", "||"), ("AND", "AND"), ("cmp", "="), ("+", "+"), ("-", "-"), ("*", "*"), ("/", "/")], [("NOT", "!"), ("neg", "-")]
REP5 = [("OR", "OR"), ("AND", "AND"), ("cmp", "<"), ("-", "-")], [("NOT", "NOT")]

ATOMS = ["[a]", "[A_b]", "[\u00c9t\u00e9]", "[1a]", "[a-b]", "[a:b]", "1", "0", "-1", "007", "1.50", ".5", "-2.0", "1e3", "1.5E-3", "12345678901234567890",
         '"x"', "'x'", "`x`", '""', "''", '"it\'s"', "'say \"x\"'", '"a b"', '"(x)"', '")"', '"("', "') AND ('", '"a AND b"', '"#fff"', "'#ff0000'", '"NOT x"', '"a && b || !c"',
         '"x"i', "'y'i", '"[a]"', '"%d"', '"\u00e9\u4e2d"', '"a\\"b"', "`2012-01-01`", '"{a}"', '"= 1"', '" "', '"/x/"', "'a,b'",
         "TRUE", "false", "NULL", "null", "%var%", "/^a.*$/", "/a b/i", "/(x|y)/", "/a=b AND c/", "\\\\a|b\\\\", "{a,b}", "{1,2}", "{'a b','c'}", "{a b,c}", '{"x"}', "{1.50,007}", "{[a],\"x\"}",
         "{a}", "{'(a','b)'}", "{a-b,c_d}", "{TRUE,false}",
         'length("x")', "f([a])", 'tostring([a],"%.2f")', "round([a],0.10)", "buffer([shape],2)", "f(1,2,3)", "upper('x y')", "f((1 + 2))", "f(([a] = 1 OR [b] = 2))", "fromText('POINT(5 5)')",
         "F(-1)", "f(NULL)", "f(TRUE)", "f(`x`)", "f({a,b})", "_f1([x])", "f(/x/)", 'f("(")', "f((-[a]))"]
LEAF = ["[a]", "[b]", "[c]", "[d]", "[e]", "[f]"]


def shapes(n):
    """unlabelled unary/binary trees with n internal nodes"""
    if n == 0:
        yield None
        return
    for c in shapes(n - 1):
        yield ("u", c)
    for k in range(n):
        for a in shapes(k):
            for b in shapes(n - 1 - k):
                yield ("b", a, b)


def label(shape, bins, uns):
    if shape is None:
        yield None
    elif shape[0] == "u":
        for c in label(shape[1], bins, uns):
            for o in uns:
                yield (o, c)
    else:
        for a in label(shape[1], bins, uns):
            for b in label(shape[2], bins, uns):
                for o in bins:
                    yield (o, a, b)


def number(t, it):
    """attach leaves"""
    if t is None:
        return next(it)
    return (t[0],) + tuple(number(c, it) for c in t[1:])


def inner(t, path=()):
    """paths of the nodes below the root that are operators"""
    if isinstance(t, tuple):
        for i, c in enumerate(t[1:], 1):
            if isinstance(c, tuple):
                yield path + (i,)
                yield from inner(c, path + (i,))


def lev(t):
    return LEVEL[t[0][0]] if isinstance(t, tuple) else 9


def toks(t, extra, path=(), left=True, ctx=0):
    """tokens of the tree: minimal parentheses plus those on the paths in extra.
    left: nothing has been written yet in the enclosing comparison chain; ctx: level required"""
    if not isinstance(t, tuple):
        return [t]
    (cls, sp), kids = t[0], t[1:]
    L = LEVEL[cls]
    need = L < ctx or path in extra
    if cls == "NOT" and not left and not need:
        need = True
    if need and path:
        return ["("] + toks(t, extra - {path}, path, True, 0) + [")"] if path in extra else ["("] + raw(t, extra, path, True) + [")"]
    return raw(t, extra, path, left)


def raw(t, extra, path, left):
    (cls, sp), kids = t[0], t[1:]
    L = LEVEL[cls]
    if cls == "NOT":
        # NOT x: x is a comparison (or a NOT)
        return [sp] + toks(kids[0], extra, path + (1,), True, 3)
    if cls == "neg":
        return ["-"] + toks(kids[0], extra, path + (1,), False, 7)
    if cls in ("OR", "AND"):
        return toks(kids[0], extra, path + (1,), True, L) + [sp] + toks(kids[1], extra, path + (2,), True, L + 1)
    # a NOT to the left of a comparison or calculation swallows it: it has to be bracketed
    return toks(kids[0], extra, path + (1,), False, L) + [sp] + toks(kids[1], extra, path + (2,), False, L + 1)


def ast(t):
    """the tree as exprmodel.parse returns it"""
    if not isinstance(t, tuple):
        return norm(X.parse(t))
    (cls, sp), kids = t[0], t[1:]
    a = [ast(k) for k in kids]
    if cls == "cmp":
        return ("cmp", sp) + tuple(a)
    if cls == "neg":
        return neg(a[0])
    return (cls,) + tuple(a)


def neg(a):
    return ("neg", a)


def norm(a):
    """list elements split at commas outside quotes, so that blanks around them do not matter"""
    if not isinstance(a, tuple):
        return a
    if a[0] == "list":
        els = re.findall(r"""(?:"[^"]*"|'[^']*'|`[^`]*`|[^,"'`])+""", a[1][1:-1])
        return ("list",) + tuple(e.strip() for e in els)
    return tuple(norm(x) for x in a)


def read(s):
    return norm(X.parse(s))


def join(tk, lay=0):
    """layouts: 0 one blank; 1 as tight as possible; 2 newlines; 3 tabs, doubled blanks; 4 tight brackets; 5 CRLF; 6 comment line ends; 7 C comments"""
    if lay == 0:
        return "(" + " ".join(tk) + ")"
    if lay == 2:
        return "(\n" + "\n".join(tk) + "\n)"
    if lay == 3:
        return "( \t" + " \t ".join(tk) + "  )"
    if lay == 4:
        return "( " + " ".join(tk) + " )"
    if lay == 5:
        return "(\r\n  " + "\r\n  ".join(tk) + ")"
    if lay == 6:
        return "(" + " # c )\n".join(tk) + ")"
    if lay == 7:
        return "(" + " /* ( */ ".join(tk) + ")"
    out = "("
    prev = "("
    for t in tk + [")"]:
        tight = (prev in ("(", "[a]") or prev[-1] in ")]\"'`" or t in ("(", ")")) or prev in SYM
        tight = tight and not (prev in ARITH or t in ARITH)
        tight = tight and not (prev[-1] in "\"'`" and t[0].isalpha())  # the i flag of a string
        tight = tight and not (prev[-1].isalnum() and t[0] == "(")    # a function call
        tight = tight and (t in SYM or t in ("(", ")") or prev in ("(",) or prev in SYM)
        tight = tight and not (prev in SYM and t in SYM)
        tight = tight and not (prev in SYM and t[0] in "*=~<>!/") and not (prev == "/" or t == "/")
        out += t if tight else " " + t
        prev = t
    return out


SYM = {"||", "&&", "!", "=", "==", "!=", "<", "<=", ">", ">=", "~", "~*", "=*"}

POS = {
    "expression": ("CLASS EXPRESSION %s END", ("expression",)),
    "filter": ("LAYER FILTER %s END", ("filter",)),
    "text": ("CLASS TEXT %s END", ("text",)),
    "labeltext": ("LABEL TEXT %s END", ("text",)),
    "labelexpr": ("LABEL EXPRESSION %s END", ("expression",)),
    "geom": ("STYLE GEOMTRANSFORM %s END", ("geomtransform",)),
    "layergeom": ("LAYER GEOMTRANSFORM %s END", ("geomtransform",)),
    "group": ("CLUSTER GROUP %s END", ("group",)),
    "cfilter": ("CLUSTER FILTER %s END", ("filter",)),
    "middle": ("LAYER NAME 'x' FILTER %s STATUS ON CLASS NAME 'y' END END", ("filter",)),
}


def trees(n, bins, uns):
    for sh in shapes(n):
        for t in label(sh, bins, uns):
            yield number(t, iter(LEAF))


def subsets(xs, full):
    xs = list(xs)
    if not full:
        return [frozenset(), frozenset(xs)] if xs else [frozenset()]
    return [frozenset(c) for r in range(len(xs) + 1) for c in itertools.combinations(xs, r)]


def batched(group, it, n=BATCH):
    out, b = [], []
    for x in it:
        b.append(x)
        if len(b) == n:
            out.append((group, tuple(b)))
            b = []
    if b:
        out.append((group, tuple(b)))
    return out


def cases(tier):
    th = tier == "thorough"
    out = []
    # 1: operands and operators, one per document, in every position
    one = []
    for a in ATOMS:
        for pos in POS:
            one.append((pos, 0, a, ()))
    for (o, a) in itertools.product(BIN + UN, ATOMS):
        if o in UN:
            one.append(("expression", 0, (o, a), ()))
            one.append(("filter", 0, (o, a), ()))
        else:
            one.append(("expression", 0, (o, "[k]", a), ()))
            one.append(("filter", 0, (o, a, "[k]"), ()))
    for a, b in itertools.product(ATOMS, ATOMS):
        one.append(("text", 0, (("cmp", "="), a, b), ()))
        one.append(("expression", 0, (("AND", "AND"), a, b), ()))
        one.append(("expression", 0, (("+", "+"), a, b), ()))
    out += batched("operands", one, 12)
    # 2: two operators, all spellings, all redundant parentheses
    two = []
    for t in trees(2, BIN, UN):
        for s in subsets(inner(t), True):
            two.append(("expression", 0, t, tuple(sorted(s))))
    out += batched("two", two)
    # 3
    three = []
    bins, uns = REP3TT if th else REP3T
    for t in trees(3, bins, uns):
        for s in subsets(inner(t), True):
            three.append(("filter", 0, t, tuple(sorted(s))))
    out += batched("three", three)
    four = []
    bins, uns = REP4T if th else REP4
    for t in trees(4, bins, uns):
        for s in (subsets(inner(t), True) if th else subsets(inner(t), False)):
            four.append(("expression", 0, t, tuple(sorted(s))))
    out += batched("four", four)
    if th:
        five = [("expression", 0, t, ()) for t in trees(5, *REP5)]
        out += batched("five", five)
    # layouts x positions
    lay = []
    for t in list(trees(2, *REP3)) + list(trees(1, BIN, UN)):
        for l in range(1, 8):
            for s in subsets(inner(t), True):
                lay.append((sorted(POS)[len(lay) % len(POS)], l, t, tuple(sorted(s))))
    out += batched("layouts", lay)
    posn = []
    for t in list(trees(2, *REP4)) + list(trees(1, BIN, UN)):
        for p in POS:
            posn.append((p, 0, t, ()))
            posn.append((p, 1, t, tuple(sorted(inner(t)))))
    out += batched("positions", posn)
    # double parentheses around everything, around leaves, nested deep
    dbl = []
    for t in list(trees(1, BIN, UN)) + list(trees(2, *REP4)) + ["[a]", "1", '"x"', "f([a])"]:
        for k in (1, 2, 5):
            dbl.append(("expression", 10 + k, t, ()))
        dbl.append(("text", 20, t, ()))
    out += batched("brackets", dbl)
    chains = []
    for n in ((2, 5, 20, 60) if not th else (2, 5, 10, 20, 40, 60, 90, 100)):
        for o in [("OR", "OR"), ("AND", "AND"), ("cmp", "="), ("+", "+"), ("-", "-"), ("*", "*"), ("^", "^")]:
            t = "[a]"
            for i in range(n):
                t = (o, t, LEAF[i % 6])
            chains.append(("expression", 0, t, ()))
            u = "[a]"
            for i in range(min(n, 40)):
                u = (o, LEAF[i % 6], u)
            chains.append(("filter", 0, u, ()))
        u = "[a]"
        for i in range(min(n, 40)):
            u = (("neg", "-"), u)
        chains.append(("expression", 0, u, ()))
        u = "[a]"
        for i in range(min(n, 40)):
            u = (("NOT", "NOT"), u)
        chains.append(("expression", 0, u, ()))
    out += batched("chains", chains, 2)
    # bare NOT before a bracketed expression, and the values that are not bracketed
    out += batched("bare", [(p, 0, t, "bare") for p in ("expression", "filter") for t in [(("NOT", s), x) for s in NOTS for x in trees(1, BIN, UN)]])
    out += batched("verbatim", [(p, 0, v, "value") for p in ("expression", "filter", "text", "middle") for v in VALUES.get(p, VALUES["*"])])
    impl.warm()
    return out


VALUES = {"*": ["/^a.*$/", "/a b/i", "\\\\x\\\\", "[a]", "{a,b}", "{1,2.50}", "{'a b','c'}", "{a b,c}", "{a-b,c:d}", '{"x","y"}', "{007}", "/(a|b)/", "/a\\.b/", "%var%"],
          "text": ["[a]", "/x/"]}


def source(pos, lay, t, ex):
    """(value text, expected AST or None)"""
    if ex == "value":
        return t, None
    if ex == "bare":
        k = toks(t[1], frozenset())
        return t[0][1] + " ( " + " ".join(k) + " )", ast(t)
    tk = toks(t, frozenset(tuple(p) for p in ex), ())
    if lay >= 20:
        # every leaf in brackets of its own
        tk = [y for x in tk for y in (["(", x, ")"] if x in LEAF else [x])]
        return join(tk), ast(t)
    if lay >= 10:
        n = lay - 10
        return "(" * n + join(tk) + ")" * n, ast(t)
    return join(tk, lay), ast(t)


def flat(s):
    """spelling of a value that is not an expression, blanks after list commas dropped"""
    return re.sub(r"\s*,\s*", ",", s) if s.startswith("{") else s


def check(src, want, got, acc, where):
    if not isinstance(got, str):
        acc.fail("%s|%s" % (where, src), "stored as %r" % (got,))
        return False
    if want is None:
        if flat(got) != flat(src):
            acc.fail("%s|%s" % (where, src), "stored as %r" % got)
            return False
        return True
    try:
        a = read(got)
    except X.ExprError as e:
        acc.fail("%s|%s" % (where, src), "the normalised string %r cannot be read: %s" % (got, e))
        return False
    if a != want:
        acc.fail("%s|%s" % (where, src), "regrouped or altered: %r denotes %r, the source denotes %r" % (got, a, want))
        return False
    if re.search(r"&&|\|\||!(?!=)", re.sub(r'"(?:\\"|[^"])*"|\'(?:\\\'|[^\'])*\'|`[^`]*`|/[^/]*/|\{[^}]*\}|\\\\.*?\\\\', "", got)):
        acc.fail("%s|%s" % (where, src), "&&, || or ! left in %r" % got)
        return False
    return True


def doc_of(items):
    """one document holding all the expressions, and the way to each"""
    return "\n".join(POS[p][0] % s for p, s in items)


def pull(r, items):
    objs = r if isinstance(r, list) else [r]
    assert len(objs) == len(items)
    return [o[POS[p][1][0]] for (p, _), o in zip(items, objs)]


def step(group, case, acc):
    items, wants = [], []
    for pos, lay, t, ex in case:
        s, w = source(pos, lay, t, ex)
        if w is not None:
            m = re.sub(r"# c \)|/\* \( \*/", "", s) if lay in (6, 7) else s
            if read(m) != w:
                raise AssertionError("model disagreement: %r written as %r reads as %r" % (w, s, read(m)))
        items.append((pos, s))
        wants.append(w)
    r = impl.attempt(impl.loads, doc_of(items))
    acc.trans()
    if r[0] != "ok" or len(r[1] if isinstance(r[1], list) else [r[1]]) != len(items):
        if len(items) > 1:
            for c in case:
                step(group, (c,), acc)
        else:
            acc.fail("load|%s|%s" % items[0], r)
        return
    got = pull(r[1], items)
    ok = True
    for (p, s), w, g in zip(items, wants, got):
        ok &= check(s, w, g, acc, p)
        acc.trace()
        acc.state(g if isinstance(g, str) else repr(g))
    acc.sample("%s -> %s" % (items[0][1], got[0]))
    if not ok:
        return
    # written and read again
    txt = impl.attempt(lambda: "\n".join(impl.dumps(o) for o in (r[1] if isinstance(r[1], list) else [r[1]])))
    acc.trans(len(items) + 1)
    if txt[0] != "ok":
        acc.fail("dumps|%s|%s" % items[0], txt)
        return
    for (p, s), g in zip(items, got):
        if g not in txt[1]:
            if not (g.startswith("{") or "\n" in g):
                acc.fail("printed|%s|%s" % (p, s), "%r is not in the printed text" % g)
    r2 = impl.attempt(impl.loads, txt[1])
    if r2[0] != "ok":
        if len(items) > 1:
            for c in case:
                step(group, (c,), acc)
        else:
            acc.fail("reload|%s|%s" % items[0], r2, text=txt[1])
        return
    for (p, s), g, g2 in zip(items, got, pull(r2[1], items)):
        if g != g2 and not (flat(str(g)) == flat(str(g2)).strip("\"'") and g.startswith("{")):
            acc.fail("idempotent|%s|%s" % (p, s), "%r became %r" % (g, g2))
        # the normalised string as a source of its own
    acc.outcome("ok")
