"""C05: layout, comments, keyword case, quote style and unquoted bare words do not change the dictionary."""
from __future__ import annotations
import itertools, os, re
from . import impl, space, options as O, doc as D, vocab as V, exprmodel, reader
from .vocab import S, W

PROP = "C05"
BOUNDS = {"quick": "per document: every gap (before the first, between any two, after the last token, inside expressions too) x 30 separators; all gaps at once x 30 separators x "
                   "5 letter cases; each keyword alone x 3 letter cases; each string alone and all strings in single quotes; gap pairs x 6x6 separators on small documents; "
                   "every keyword slot, key-value block and CONFIG x ~30 bare words, quoted against unquoted; corpus files re-laid out 8 ways",
          "thorough": "as quick over more documents (all kitchen documents, all core documents, groups D and F), gap pairs on ~150 documents, every gap of the corpus files x 3 separators"}
ASSUMPTIONS = ["lone CR is not in the separator alphabet (the statement names LF and CRLF)",
               "a C comment glued to a path, and an empty separator next to a token it would extend, are different token sequences and excluded",
               "bare words after SYMBOL that are SYMBOL keywords, after the STYLE keyword, and reserved operator words are ambiguous and excluded",
               "INCLUDE as the first word of a line is C15's directive; see known findings for INCLUDE lines inside comments and strings"]
HEAVY = ("gap", "pair", "corpus")
CASE_LIMIT = 200.0

SEPS = [" ", "   ", "\t", "\f", " \t\f ", "\n", "\r\n", "\n\n\n", "\r\n\r\n  ", "\n\t\t", " # c\n", "\n# c\n  ", " # c\r\n", " #\n", "\n#'\"`[({\n", " # END MAP \"x\n", " # /*\n", " ## a # b\n",
        " /* c */ ", "\n/* c */\n", " /**/ ", " /* l1\n l2\n*/ ", " /* ' \" # [ */ ", " /*\r\n*/\r\n", " /* END */ # x */\n", " /* a */ /* b */ ", " /*** x ***/ ", "\n\n\t# a\n# b\n\t/* c */\n",
        "#c\n", "/* c */", "", " # \u00e9\u2192 %s [x] {y}\n"]
PAIRSEPS = ["\n", "\r\n", " # 'c\n", " /* \"c */ ", "\f", " /*\n*/ "]


def upper(s):
    return s.upper()


def alternating(s):
    return "".join(c.lower() if i % 2 else c.upper() for i, c in enumerate(s))


CASES = {"upper": upper, "lower": str.lower, "title": str.capitalize, "alt": alternating, "alt2": lambda s: alternating("x" + s)[1:]}


def toks(doc):
    out = []
    for t in D.tokens(doc):
        if t.kind == "val" and t.v is not None and t.v[0] == "expr":
            parts = split_expr(t.text)
            for p in parts:
                out.append(D.Tok(p, "val", t.path, t.depth, "exprpart", t.v))
        else:
            out.append(t)
    return out


def split_expr(s):
    p, out, i = None, [], 0
    s = s.strip()
    while i < len(s):
        if s[i].isspace():
            i += 1
            continue
        m = exprmodel.TOK.match(s, i)
        if not m:
            return [s]
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


def is_bool(t):
    return t.kind == "val" and t.v is not None and t.v[0] == "bool"


def sep_ok(toks_, g, sep):
    """may sep stand in gap g (before token g; g == len: after the last)?"""
    if sep == "":
        if g == 0 or g == len(toks_):
            return True
        a, b = toks_[g - 1].text, toks_[g].text
        if b[:1] in "iI" and a[-1:] in "\"'`/":
            return False
        if a[-1] in "\"'`])}" and not (a[0] == "/" or a[-1] == b[0] in "`") or b[0] in "\"'`[({" and a[-1] not in "/iI":
            return a[-1] not in "\"'`" or b[0] not in "\"'`" or True
        return False
    if sep == "/* c */" and g:
        return "/" not in toks_[g - 1].text
    return True


def default(toks_):
    return D.default_seps(toks_)


def build(toks_, seps, tail="", texts=None):
    return "".join(s + x for s, x in zip(seps, texts or [t.text for t in toks_])) + tail


def docs_for(tier):
    th = tier == "thorough"
    core = O.core()
    if th:
        docs = core + [c for g, c in space.documents("DF", False)]
    else:
        docs = [c for c in core if not c[0].startswith("kitchen") or c[0].endswith(("#0", "#1 rev"))]
    return docs


WORDS = ["foo", "Foo_1", "a-b", "x1", "_x", "\u00e9a", "1a", "a:b", "ON", "grid", "layer", "style", "class", "points", "name", "type", "metadata", "config", "data", "symbol", "projection", "values", "map",
         "web", "end_x", "ended", "autox", "nullx", "truex", "andy", "notx", "inx", "orx", "eq", "and", "or", "in", "like", "true", "Auto", "null", "hilite", "text", "label", "feature", "pattern", "init-epsg", "a--b", "Hilite1", "layers"]


def cases(tier):
    th = tier == "thorough"
    docs = docs_for(tier)
    out = [("gap", c) for c in docs]
    small = [c for c in docs if len(toks(c[1])) <= (14 if th else 11)]
    small = [c for c in small if c[0].startswith(("align", "root", "querymap", "expressions", "single", "escaped", "strings", "mix", "empty"))
             or c[0].startswith("slot") and (th or hash_pick(c[0]))]
    out += [("pair", c) for c in small]
    for t in V.TYPES:
        for k in V.slots(t):
            if V.slot(t, k)["kind"] in ("attr", "kv", "config", "repeated"):
                out.append(("bare", (t, k)))
    for k in ("metadata", "validation", "connectionoptions"):
        out.append(("bare", (None, k)))
    for f in space.corpus():
        out.append(("corpus", (f, "gaps" if th else "uniform")))
    out += [("public", c) for c in O.ALIGNS]
    out += [("include", i) for i in range(len(INC))]
    impl.warm()
    return out


# comments holding INCLUDE lines, with every separator in front of and behind them
INC = ['/*\nINCLUDE "nofile.map"\n*/', '# x\n#INCLUDE "nofile.map"\n # include nofile\n', "/* it's\n  include 'nofile' # x */", '/* a */ /*\ninclude nofile\n\ninclude nofile2*/', "# /*\n", '/* include */', '# */ "\n']


def step_include(case, acc):
    text = 'MAP\nNAME "x /* y"\nLAYER\nNAME "it\'s"\nTYPE POINT\nEND\nEND'
    base = Base(acc, "include in comments", text, lambda t: impl.loads(t))
    words = re.split(r"(\n)", text)
    for i in range(len(words) + 1):
        for s in ("", "\n", "\r\n", " ", "\t"):
            for e in ("\n", "\r\n\t", " \n"):
                base.check("".join(words[:i]) + "\n" + s + INC[case] + e + "".join(words[i:]), "%d %d %r %r" % (case, i, s, e))
    acc.sample(INC[case])


def hash_pick(lab):
    """one keyword per kind of slot and object type"""
    t, k = lab.split()[1].split(".")
    kd = V.slot(t, k)["kind"]
    first = [x for x in V.slots(t) if V.slot(t, x)["kind"] == kd][0]
    return k == first


def step(group, case, acc):
    globals()["step_" + group](case, acc)


class Base:
    def __init__(self, acc, lab, text, loads):
        self.acc, self.lab, self.loads = acc, lab, loads
        r = impl.attempt(loads, text)
        acc.trans()
        self.ok = r[0] == "ok"
        self.text = text
        self.c = D.canon(r[1]) if self.ok else None
        self.n0 = len(acc.viol)
        if self.ok:
            acc.state(self.c)
        self.seen = {text}

    def check(self, text, what):
        acc = self.acc
        if text in self.seen or len(acc.viol) >= self.n0 + 6:
            return
        self.seen.add(text)
        acc.state(text)
        r = impl.attempt(self.loads, text)
        acc.trans()
        acc.trace()
        if r[0] != "ok":
            acc.fail("rejected|%s|%s" % (self.lab, what), "%s: %s" % r[1:], text=text, base=self.text)
        elif D.canon(r[1]) != self.c:
            acc.fail("content|%s|%s" % (self.lab, what), D.diff(D.canon(r[1]), self.c), text=text, base=self.text)


def ld(text):
    """loads; INCLUDE keywords of the documents are attributes here (expand_includes=False)"""
    return impl.loads(text, expand="include" not in text.lower())


def step_gap(case, acc, loads=None):
    lab, doc = case
    tk = toks(doc)
    base = Base(acc, lab, build(tk, default(tk)), loads or ld)
    if not base.ok:
        acc.outcome("not accepted by loads")
        return
    n = len(tk)
    d = default(tk)
    # each gap on its own
    for g in range(n + 1):
        for s in SEPS:
            if not sep_ok(tk, g, s):
                continue
            if g == n:
                base.check(build(tk, d, s), "tail %r" % s)
            else:
                base.check(build(tk, d[:g] + [s] + d[g + 1:]), "gap %d %r" % (g, s))
    # all gaps at once, with each letter case
    for cn, cf in CASES.items():
        texts = [cf(t.text) if t.kind == "open" or t.kind == "end" or t.kind == "key" and t.role != "kvpair" or is_bool(t) else t.text for t in tk]
        for s in SEPS:
            base.check(build(tk, [s if sep_ok(tk, g, s) else " " for g in range(n)], s, texts), "all gaps %r case %s" % (s, cn))
    # each keyword on its own
    for i, t in enumerate(tk):
        if t.kind in ("open", "end") or t.kind == "key" and t.role != "kvpair" or is_bool(t):
            for cn in ("lower", "alt", "title"):
                texts = [x.text for x in tk]
                texts[i] = CASES[cn](t.text)
                base.check(build(tk, d, "", texts), "keyword %d %s" % (i, cn))
    # quotes
    def other(x):
        if len(x) > 1 and x[0] == x[-1] == '"' and not set("\"'\\") & set(x[1:-1]):
            return "'" + x[1:-1] + "'"
        return x
    strs = [i for i, t in enumerate(tk) if t.v is not None and t.v[0] in ("str", "hex", "list") and other(t.text) != t.text]
    for i in strs:
        texts = [x.text for x in tk]
        texts[i] = other(texts[i])
        base.check(build(tk, d, "", texts), "quotes %d" % i)
    for s in ("\n", " ", "\r\n", " # c\n"):
        base.check(build(tk, [s] * n, s, [other(t.text) if i in strs else t.text for i, t in enumerate(tk)]), "all quotes %r" % s)
    acc.sample(base.text)


def step_public(case, acc):
    tk = toks(case[1])
    base = Base(acc, "public " + case[0], build(tk, default(tk)), impl.pub_loads)
    if base.ok:
        for s in SEPS[::3]:
            base.check(build(tk, [s if sep_ok(tk, g, s) else " " for g in range(len(tk))], s, [t.text.lower() if t.kind in ("open", "end") else t.text for t in tk]), "all %r" % s)


def step_pair(case, acc):
    lab, doc = case
    tk = toks(doc)
    d = default(tk)
    base = Base(acc, lab, build(tk, d), ld)
    if not base.ok:
        return
    n = len(tk)
    for g, h in itertools.combinations(range(n + 1), 2):
        for s in PAIRSEPS:
            for r in PAIRSEPS:
                sp = list(d)
                sp[g] = s
                tail = ""
                if h == n:
                    tail = r
                else:
                    sp[h] = r
                base.check(build(tk, sp, tail), "gaps %d %r %d %r" % (g, s, h, r))
    acc.sample(base.text)


SYMBOL_WORDS = {k for k in V.slots("symbol")} | {"symbol", "metadata", "validation", "values", "projection", "pattern", "config", "points"}
RESERVED = set(V.TYPES) | {"config", "projection", "pattern", "points", "metadata", "validation", "values", "connectionoptions", "and", "or", "not", "in", "eq", "ne", "lt", "gt", "le", "ge", "like",
                           "true", "false", "null", "auto", "hilite", "selected"}
LITERALS = {"true", "false", "null", "auto", "hilite", "selected"}


def bare_ok(t, k, w):
    l = w.lower()
    if l in LITERALS:
        return False  # TRUE, NULL ... are not strings
    if k == "style":
        return False
    if k == "symbol" and (l in SYMBOL_WORDS or l in V.TYPES):
        return False
    if k in D.BLOCK_TYPES:
        return l not in V.TYPES and l not in SYMBOL_WORDS
    return True


def step_bare(case, acc):
    t, k = case
    kd = V.slot(t, k)["kind"] if t else "root"
    for w in WORDS:
        pairs = []
        if kd in ("attr", "repeated"):
            if not bare_ok(t, k, w):
                continue
            tag = "attr" if kd == "attr" else "rep"
            s1, s2 = space.SIMPLE[t], space.SIMPLE2[t]
            s1, s2 = (s2, s1) if s1[1] == k else (s1, s2)
            for pos in (lambda i: [i], lambda i: [i, s1], lambda i: [s1, i], lambda i: [s1, i, s1]):
                pairs.append(([("block", t, pos((tag, k, S(w))))], [("block", t, pos((tag, k, W(w))))]))
        elif kd in ("kv", "root"):
            f = (lambda p: [("block", t, [("kv", k, p)])]) if t else (lambda p: [("kv", k, p)])
            for mk in (lambda v: [(v, S("x"))], lambda v: [(S("a"), v)], lambda v: [(v, v), (S("zz"), S("y"))], lambda v: [(S("a"), v), (v, S("b"))], lambda v: [(S("a"), S("b")), (v, v)]):
                a, b = f(mk(S(w))), f(mk(W(w)))
                if w.lower() in RESERVED and any(i and p[0][0] == "word" for i, p in enumerate((b[0][2][0] if t else b[0])[2])):
                    continue  # a reserved word in a later key position may start the next block (a missing END)
                pairs.append((a, b))
        elif kd == "config":
            for mk in (lambda v: [("config", v, S("x"))], lambda v: [("config", S("A"), v), space.SIMPLE[t]], lambda v: [("config", v, v), space.SIMPLE[t]]):
                pairs.append(([("block", t, mk(S(w)))], [("block", t, mk(W(w)))]))
        for a, b in pairs:
            base = Base(acc, "bare %s.%s" % (t, k), D.render(a), ld)
            if not base.ok:
                acc.outcome("quoted form not accepted")
                continue
            for tl in (D.render(b), D.render(b, nl="\r\n"), build(toks(b), [" "] * len(toks(b))), build(toks(b), [" /* c */ "] * len(toks(b))),
                       build(toks(b), [" # c\n"] * len(toks(b)), "", [x.text.lower() if x.kind in ("open", "end", "key") and x.role != "kvpair" else x.text for x in toks(b)])):
                base.check(tl, "%s: %s" % (w, " ".join(D.render(b).split())))
    acc.sample("%s.%s" % case)


def step_corpus(case, acc):
    fn, mode = case
    text = open(os.path.join(impl.REPO, fn), encoding="utf-8").read()
    loads = lambda t: impl.loads(t, expand=False)
    base = Base(acc, fn, text, loads)
    if not base.ok:
        acc.outcome("corpus file not accepted")
        return
    try:
        tk = [t for t in reader.scan(text) if t.kind != "c"]
    except reader.ReadError:
        acc.outcome("corpus file not tokenised")
        return
    raws = [t.raw for t in tk]
    n = len(raws)
    for s in (" ", "\n", "\r\n\t", " # c 'x\n", " /* \"c */ ", "\n\n\f", " # c\r\n", " /*\n*/\n"):
        base.check("".join(s + r for r in raws) + s, "all gaps %r" % s)
    # quotes swapped where the string holds neither
    sw = [("'" if r[0] == '"' else '"') + r[1:-1] + ("'" if r[0] == '"' else '"') if t.kind == "q" and not set("\"'\\") & set(r[1:-1]) else r for t, r in zip(tk, raws)]
    base.check("\n".join(sw), "quotes swapped")
    if mode == "gaps" and n <= 900:
        for g in range(1, n):
            if tk[g].pos == tk[g - 1].end:
                continue
            for s in (" # c\n", "\r\n", " /* x\n' */ "):
                base.check(text[:tk[g - 1].end] + s + text[tk[g].pos:] if not text[tk[g - 1].end:tk[g].pos].strip() else text, "gap %d %r" % (g, s))
    acc.sample(fn)
