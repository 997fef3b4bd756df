"""C11: any text is either parsed, or rejected with a LarkError, promptly.

All token sequences up to a length over the whole token vocabulary (bare and inside every kind of
block/value context), all single token-level mutations of generated documents and corpus files, all
character-level truncations/deletions/insertions of small documents, all splices of pairs of documents,
and all pumped words  prefix (word)^n suffix  for growing n, with the CPU time per character compared.
"""
from __future__ import annotations
import itertools, os, re, time
from . import impl, space, options as O, doc as D, vocab as V

PROP = "C11"
ASSUMPTIONS = ["texts with an INCLUDE line are run with expand_includes=False (expansion and its I/O errors are C15)",
               "the position of an 'end of text' error ($END) only has to be present",
               "CPU time is 'roughly proportional' when 8 times the text costs at most 22 times the CPU time (best of several runs, repeated before reporting)"]
BOUNDS = {
    "quick": "all sequences of <= 3 of 66 tokens at the root, of <= 2 in 21 contexts, each in plain and comments+position mode; all single-token mutations (delete, duplicate, swap, truncate, replace/insert each of "
             "24 tokens) of ~60 documents; delete/duplicate/swap/truncate of corpus files up to 2.5 kB; all truncations, deletions and 14 insertions per character of 12 documents; all token splices of 16x16 documents; "
             "all pumped words of <= 2 of 40 tokens in 12 contexts at two lengths, plain and with includes, comments and positions; 26 texts of 300-1,000 and 16 times as many distinct parts; nesting to 100",
    "thorough": "sequences of 3 in every context and of 4 over 30 tokens, mutation of all core documents, all corpus files up to 10 kB, pairs of mutations",
}
HEAVY = ("pump", "deep", "distinct")
CASE_LIMIT = 120.0

VOC = ["MAP", "layer", "CLASS", "STYLE", "SYMBOL", "SYMBOLSET", "METADATA", "VALIDATION", "CONNECTIONOPTIONS", "PROJECTION", "POINTS", "PATTERN", "VALUES", "CONFIG", "GRID", "SCALETOKEN",
       "END", "NAME", "x", "TYPE", "AUTO", "NULL", "TRUE", "HILITE", '"s"', "'s'", "`b`", '""', '"s"i', "1", "-1.5", "1e5", "1e999", "1x", "'#fff'", "\"#ff0000\"", "[a]", "(1)", "([a] = 1)", "(", ")", "{", "}", "{a,b}",
       ",", "=", "+", "-", "!", "NOT", "AND", "IN", "/re/", "\\\\re\\\\", "%v%", "a/b.c", "#c\n", "/*c*/", '"', "'", "`", "/", "\\", "%", "[", "]", "\u00e9"]
VOC4 = ["MAP", "STYLE", "SYMBOL", "METADATA", "PROJECTION", "POINTS", "VALUES", "CONFIG", "GRID", "END", "NAME", "x", "AUTO", "'s'", "1", "-1.5", "\"#ff0000\"", "[a]", "(1)", "(", "{", "}", "=", "/re/", "#c\n", "/*c*/",
        '"', "/", "%v%", "\u00e9"]
REPL = ["MAP", "STYLE", "SYMBOL", "METADATA", "POINTS", "PROJECTION", "CONFIG", "END", "x", "AUTO", "'s'", '"', "1", "-1.5", "'#fff'", "[a]", "(1)", "(", ")", "{a}", "=", "/re/", "#c\n", "/*c*/"]
CTX = ["%s", "MAP %s END", "MAP NAME %s END", "LAYER NAME 'x' %s END", "CLASS EXPRESSION %s END", "CLASS EXPRESSION (%s) END", "CLASS EXPRESSION ([a] %s 1) END", "CLASS TEXT (f(%s)) END", "CLASS EXPRESSION {%s} END",
       "LAYER METADATA %s END END", "LAYER METADATA 'a' %s END END", "FEATURE POINTS %s END END", "FEATURE POINTS 1 2 %s END END", "STYLE PATTERN %s END END", "LAYER PROJECTION %s END END", "SYMBOL TYPE %s END",
       "SYMBOLSET %s END", "MAP CONFIG %s END", "STYLE SIZE %s END", "LABEL OFFSET 1 %s END", "MAP EXTENT 1 2 3 %s END", "MAP SYMBOL %s NAME 'x' END END", "METADATA %s", "SCALETOKEN VALUES %s END END",
       "QUERYMAP STYLE %s END", "LAYER CLASS %s", "STYLE COLOR %s END"]


# ---------------------------------------------------------------- tokenising for mutations
LEX = re.compile(r"""\s+|\#[^\n]*|/\*.*?\*/|"(?:\\"|[^"])*"i?|'(?:\\'|[^'])*'i?|`[^`]*`|\([^()]*\)|\{[^}]*\}|\[[^\]]*\]|[^\s"'`#(){}\[\]]+|.""", re.S)


def lex(text):
    return [m.group() for m in LEX.finditer(text)]


def solid(ts):
    return [i for i, t in enumerate(ts) if not t.isspace()]


# ---------------------------------------------------------------- the oracle
def where(text, line, col):
    lines = text.split("\n")
    if not 1 <= line <= len(lines):
        return None
    l = lines[line - 1]
    return sum(len(x) + 1 for x in lines[:line - 1]) + col - 1 if 1 <= col <= len(l) + 1 else None


def verdict(text, acc, comments=False, viable=False, loads=None):
    """run loads and judge the outcome; returns 'ok', 'rejected' or None after a violation"""
    acc.trans()
    try:
        r = (loads or impl.loads)(text, **({} if loads else {"comments": comments, "position": comments, "expand": not impl.has_include(text)}))
    except impl.LarkError as e:
        cls = type(e).__name__
        acc.outcome(cls)
        if isinstance(e, impl.lark.exceptions.UnexpectedInput):
            line, col = getattr(e, "line", None), getattr(e, "column", None)
            if not isinstance(line, int) or not isinstance(col, int) or line < 1 or col < 1:
                return bad(acc, text, comments, "syntax error without a position: %s line=%r column=%r" % (cls, line, col))
            tok = getattr(e, "token", None)
            if tok is not None and getattr(tok, "type", None) == "$END":
                return "rejected"
            p = where(text, line, col)
            if p is None:
                return bad(acc, text, comments, "position line %r column %r is outside the text" % (line, col))
            if tok is not None and not text.startswith(str(tok.value), p):
                return bad(acc, text, comments, "no %r at line %d column %d" % (str(tok.value), line, col))
            if viable and text[:p].strip():
                # everything before the reported token is the beginning of some Mapfile
                acc.trans()
                try:
                    impl.loads(text[:p], expand=False)
                except impl.LarkError as e2:
                    if isinstance(e2, impl.lark.exceptions.UnexpectedInput) and getattr(getattr(e2, "token", None), "type", None) != "$END":
                        # (errors found after parsing, which expect no token, are reported only when the syntax is right)
                        if where(text, e2.line, e2.column) != p and getattr(e2, "expected", None):
                            return bad(acc, text, comments, "the error is reported at line %d column %d, but the text before is already rejected at line %r column %r" % (line, col, e2.line, e2.column))
                except Exception as e2:
                    return bad(acc, text[:p], False, "%s escapes: %s" % (type(e2).__name__, impl.exc_text(e2)))
        elif isinstance(e, impl.lark.exceptions.VisitError) and "RecursionError" not in repr(root_cause(e)):
            return bad(acc, text, comments, "rejected without a position: VisitError around %s" % type(e.orig_exc).__name__)
        return "rejected"
    except Exception as e:
        return bad(acc, text, comments, "%s escapes: %s" % (type(e).__name__, impl.exc_text(e)))
    objs = r if isinstance(r, list) else [r]
    if not objs or not all(isinstance(o, dict) and o.get("__type__") for o in objs):
        return bad(acc, text, comments, "loads returned %r" % (r,))
    acc.outcome("accepted")
    return "ok"


def root_cause(e):
    while isinstance(e, impl.lark.exceptions.VisitError):
        e = e.orig_exc
    return e


def bad(acc, text, comments, msg):
    s = repr(text)
    if len(s) > 240:
        s = s[:100] + "..." + s[-60:] + " (%d characters)" % len(text)
    acc.fail(("comments|" if comments else "") + s, msg, text=text[:5000])
    return None


def both(text, acc, viable=False):
    a = verdict(text, acc, False, viable)
    if not impl.has_include(text):
        b = verdict(text, acc, True)
        if a and b and a != b:
            bad(acc, text, True, "plain load: %s, with comments and positions: %s" % (a, b))
    acc.trace()
    acc.state(text)


# ---------------------------------------------------------------- cases
def small_docs(n=60):
    docs = [(l, d) for l, d in O.core() if not l.startswith(("slot", "empty"))]
    pick = [d for l, d in docs if l.startswith(("align", "nested", "root", "strings", "expressions", "kitchen"))]
    out = []
    for d in pick:
        t = D.render(d)
        if len(t) < 900 and t not in out:
            out.append(t)
    out.sort(key=len)
    step_ = max(1, len(out) // n)
    return out[::step_][:n]


SPLICE = ["MAP NAME 'a' LAYER TYPE POINT END END", "CLASS EXPRESSION ([a] = 1 AND NOT ([b] IN 'x')) END", "LAYER METADATA 'a' 'b' c d END END", "FEATURE POINTS 1 2 3 4 END WKT 'x' END", "STYLE PATTERN 1 2 END COLOR 1 2 3 END",
          "LAYER PROJECTION 'init=epsg:1' END END", "MAP CONFIG 'a' 'b' WEB END END", "SYMBOLSET SYMBOL NAME 's' TYPE ELLIPSE END END", "CLASS SYMBOL 'x' STYLE SYMBOL 0 END END", "LAYER PROCESSING 'A=1' FILTER {a,b} END",
          "QUERYMAP STYLE HILITE COLOR '#ff0000' END", "SCALETOKEN VALUES '0' 'a' END END", "LABEL OFFSET [a] [b] TEXT (f([x],'%.2f')) END", "STYLE SIZE [x] COLORRANGE '#000000' '#ffffff' END # c\n", "/* c */ LEADER STYLE END END",
          "MAP EXTENT -1 -2.5 3e1 4 PROJECTION AUTO END END"]
CHARDOCS = SPLICE[:12]
CHARS = ["\"", "'", "`", "/", "\\", "#", "%", "[", "(", "{", ")", "\n", "\u00e9", "*"]

PUMP = ["MAP ", "LAYER END ", "STYLE ", "SYMBOL ", "NAME 'x' ", "# c\n", "/* c */ ", "/* ", "*/", '"', "'", "`", "/", "\\\\", "\\", "%", "{", "[", "(", "\n", " ", "\t", "\r\n", "1 ", "1", "-", "a", "a ", '\\"', "\\' ",
        "[a] ", "{a} ", "/a/ ", "#", '"#fff" ', "a.b/", "a/", "./", "\u00e9", "'a' 'b' ", "1.5 ", "e", ".", "a,", "END ", "\x0c", "!", "= "]
PCTX = [("", ""), ("MAP ", " END"), ("MAP NAME ", " END"), ("LAYER METADATA ", " END END"), ("FEATURE POINTS ", " END END"), ("CLASS EXPRESSION {", "} END"), ("MAP NAME '", "' END"), ('MAP NAME "', '" END'), ("LAYER PROJECTION ", " END END"),
        ("CLASS EXPRESSION /", "/ END"), ("MAP # ", "\nEND"), ("MAP /* ", " */ END"), ("CLASS NAME `", "` END"), ("MAP EXTENT ", "")]


def cases(tier):
    th = tier == "thorough"
    out = []
    for a, b in itertools.product(range(len(VOC)), range(len(VOC))):
        out.append(("soup3", (a, b)))
    out.append(("soup1", 0))
    for c in range(1, len(CTX)):
        for a in range(len(VOC)):
            out.append(("ctx3" if th else "ctx2", (c, a)))
    if th:
        for a, b in itertools.product(range(len(VOC4)), range(len(VOC4))):
            out.append(("soup4", (a, b)))
    docs = small_docs(400 if th else 60)
    for t in docs:
        out.append(("mutate", t))
    for t in (SPLICE if not th else docs[::4] + SPLICE):
        out.append(("mutate2" if th and len(t) < 80 else "mutate", t))
    for i, j in itertools.product(range(len(SPLICE)), repeat=2):
        out.append(("splice", (i, j)))
    for t in CHARDOCS if not th else CHARDOCS + docs[:40]:
        out.append(("chars", t))
    for f in space.corpus():
        n = os.path.getsize(os.path.join(impl.REPO, f))
        if n <= (10000 if th else 2500):
            out += [("corpus", (f, i, 8 if th else 1)) for i in range(8 if th else 1)]
    one = [(v,) for v in PUMP]
    two = [(v, w) for v in PUMP for w in PUMP if v != w]
    for ws in one:
        for c in range(len(PCTX)):
            out.append(("pump", (ws, c)))
    if th:
        for ws in two:
            out += [("pump2", (ws, c)) for c in range(len(PCTX))]
    else:
        for ws in two:
            out.append(("pump2", (ws, len(out) % len(PCTX))))
    for ws in one:
        for c in range(len(PCTX)):
            if th or (c + PUMP.index(ws[0])) % 3 == 0:
                out.append(("pumpfull", (ws, c)))
    for k in DISTINCT:
        for mode in MODES:
            out.append(("distinct", (k, mode)))
    for k in DEEP:
        out.append(("deep", k))
    for t in D.OPENERS if hasattr(D, "OPENERS") else sorted(V.TYPES):
        out.append(("roots", t))
    impl.warm()
    return out


DEEP = {"brackets": ("CLASS EXPRESSION ", "(", "[a]", ")", " END"), "blocks": ("", "LAYER ", "", "END ", ""), "blocks2": ("MAP ", "CLASS STYLE ", "", "END END ", "END"), "not": ("CLASS EXPRESSION (", "NOT (", "[a]", ")", ") END"),
        "neg": ("CLASS EXPRESSION (", "-(", "[a]", ")", ") END"), "and": ("CLASS EXPRESSION (", "[a] AND ", "[b]", "", ") END"), "or": ("CLASS EXPRESSION (", "[a] || ", "[b]", "", ") END"), "add": ("CLASS EXPRESSION (", "1 + ", "2", "", ") END"),
        "cmp": ("CLASS EXPRESSION (", "1 = ", "2", "", ") END"), "calls": ("CLASS EXPRESSION (", "f((", "1", "))", ") END"), "lists": ("CLASS EXPRESSION ", "{", "a", "}", " END"), "rightand": ("CLASS EXPRESSION (", "([a] AND ", "[b]", ")", ") END"),
        "symbols": ("", "SYMBOL TYPE ELLIPSE ", "", "END ", ""), "metadata": ("", "METADATA 'a' 'b' ", "", "END ", "")}


# texts whose parts differ from one another
DISTINCT = {"metadata": ("LAYER METADATA ", lambda i: "'k%d' 'v%d'\n" % (i, i), "END END"), "validation": ("CLASS VALIDATION ", lambda i: "'k%d' 'v'\n" % i, "END END"),
            "values": ("SCALETOKEN VALUES ", lambda i: "'%d' 'v'\n" % i, "END END"), "options": ("LAYER CONNECTIONOPTIONS ", lambda i: "'k%d' 'v'\n" % i, "END END"),
            "config": ("MAP ", lambda i: "CONFIG 'k%d' 'v'\n" % i, "END"), "layers": ("MAP ", lambda i: "LAYER NAME 'l%d' END\n" % i, "END"), "classes": ("MAP LAYER ", lambda i: "CLASS NAME 'l%d' STYLE WIDTH %d END END\n" % (i, i), "END END"),
            "symbols": ("SYMBOLSET ", lambda i: "SYMBOL NAME 'l%d' END\n" % i, "END"), "processing": ("LAYER ", lambda i: "PROCESSING 'A%d=1'\n" % i, "END"), "points": ("FEATURE POINTS ", lambda i: "%d %d.5\n" % (i, i), "END END"),
            "lines": ("FEATURE ", lambda i: "POINTS %d %d.5 END\n" % (i, i), "END"), "pattern": ("STYLE PATTERN ", lambda i: "%d %d.5\n" % (i, i), "END END"), "projection": ("LAYER PROJECTION ", lambda i: "'p%d=1'\n" % i, "END END"),
            "comments": ("MAP ", lambda i: "NAME 'x%d' # c%d\n" % (i, i), "END"), "ccomments": ("MAP ", lambda i: "/* c%d */ NAME 'x' # d%d\n" % (i, i), "END"), "strings": ("MAP ", lambda i: "NAME 'x%d\n y'\n" % i, "END"),
            "list": ("CLASS EXPRESSION {", lambda i: "a%d," % i, "b} END"), "or": ("CLASS EXPRESSION (", lambda i: "[a] = %d OR " % i, "TRUE) END"), "roots": ("", lambda i: "CLASS NAME 'c%d' END\n" % i, ""),
            "args": ("CLASS TEXT (f(", lambda i: "%d," % i, "1)) END"), "digits": ("LAYER DEBUG 1.", lambda i: str(i), " END"), "word": ("LAYER NAME a", lambda i: str(i), " END"), "path": ("LAYER DATA a", lambda i: "/b%d" % i, " END"),
            "nocomment": ("MAP NAME 'a' ", lambda i: "# '%d\n" % i, "END"), "include": ("MAP /* ", lambda i: "\ninclude 'x%d'" % i, "*/ END"), "unknown": ("MAP ", lambda i: "foo%d %d\n" % (i, i), "END")}
MODES = [(False, False, False), (True, True, True)]


def distinct(k, mode, acc):
    pre, f, suf = DISTINCT[k]
    n = {"or": 300, "args": 500, "classes": 300, "symbols": 500, "roots": 500, "layers": 500}.get(k, 1000)
    t1, t2 = (pre + "".join(f(i) for i in range(m)) + suf for m in (n, 16 * n))
    verdict(t1, acc, mode[0])
    verdict(t2, acc, mode[0])
    acc.trace()
    for attempt in range(3):
        a, b = cpu(t1, 3, *mode), cpu(t2, 1, *mode)
        if b <= 36 * max(a, 0.003):
            return
    a, b = cpu(t1, 5, *mode), cpu(t2, 3, *mode)
    if b > 36 * max(a, 0.003):
        bad(acc, "%s (%d distinct parts)" % (k, 16 * n), mode[0], "%.3f s of CPU time for %d parts, %.3f s for %d" % (a, n, b, n * 16))


# ---------------------------------------------------------------- CPU time
def cpu(text, best=3, expand=False, comments=False, position=False):
    b = None
    for _ in range(best):
        t = time.process_time()
        try:
            impl.loads(text, expand=expand, comments=comments, position=position)
        except impl.LarkError:
            pass
        t = time.process_time() - t
        b = t if b is None or t < b else b
    return b


def pump(ws, c, acc, sizes, mode=(False, False, False)):
    pre, suf = PCTX[c]
    w = "".join(ws)
    n1, n2 = (s // len(w) for s in sizes)
    t1, t2 = pre + w * n1 + suf, pre + w * n2 + suf
    for t in (pre + w * 3 + suf, pre + w * 9 + suf, t1):
        both(t, acc)
    verdict(t2, acc, True)
    for attempt in range(4):
        a, b = cpu(t1, 2, *mode), cpu(t2, 1, *mode)
        if b <= 22 * max(a, 0.004) and b < 20:
            return
    # a longer measurement decides
    n = int(n2 * 2)
    a, b = cpu(t2, 3, *mode), cpu(pre + w * n2 * 4 + suf, 2, *mode)
    if b > 9 * max(a, 0.004):
        bad(acc, "%s(%s)^%d%s" % (pre, w, n2 * 4, suf), False, "%.3f s of CPU time for %d characters, %.3f s for %d" % (a, len(t2), b, len(t2) * 4))


def step(group, case, acc):
    if group == "soup1":
        for t in ("", " ", "\n", "\ufeff", "\x00", "\ud800", "\U0001f600", "\x85", "\u2028", "\x0b", "\x1c"):
            both(t, acc)
            both("MAP " + t + " END", acc)
            both("MAP NAME '" + t + "' END", acc)
            both("MAP NAME " + t + " END", acc)
        for a in VOC:
            for c in CTX:
                both(c % a, acc, True)
                both(c % "", acc, True)
                both(c.replace(" ", "") % a, acc)
        for a, b in itertools.product(VOC, VOC):
            both(a + " " + b, acc, True)
            both(a + b, acc)
        # the public function, as users call it
        for a in VOC:
            for c in CTX[:10]:
                verdict(c % a, acc, loads=impl.pub_loads)
    elif group == "soup3":
        p = VOC[case[0]] + " " + VOC[case[1]] + " "
        for c in VOC:
            both(p + c, acc, True)
        acc.sample(p + VOC[3])
    elif group == "soup4":
        for c, d in itertools.product(VOC4, VOC4):
            both("%s %s %s %s" % (VOC4[case[0]], VOC4[case[1]], c, d), acc)
    elif group == "ctx2":
        for b in VOC:
            both(CTX[case[0]] % (VOC[case[1]] + " " + b), acc)
        acc.sample(CTX[case[0]] % (VOC[case[1]] + " x"))
    elif group == "ctx3":
        for b, c in itertools.product(VOC, VOC):
            verdict(CTX[case[0]] % (VOC[case[1]] + " " + b + " " + c), acc, True)
            acc.trace()
    elif group in ("mutate", "mutate2", "corpus"):
        text = case
        if group == "corpus":
            text = open(os.path.join(impl.REPO, case[0]), encoding="utf-8", errors="replace").read()
        ts = lex(text)
        assert "".join(ts) == text
        ix = solid(ts)
        muts = []
        for k, i in enumerate(ix):
            if group == "corpus" and k % case[2] != case[1]:
                continue
            muts.append(ts[:i] + ts[i + 1:])
            muts.append(ts[:i + 1] + [" "] + ts[i:])
            muts.append(ts[:i])
            if k + 1 < len(ix):
                j = ix[k + 1]
                muts.append(ts[:i] + [ts[j]] + ts[i + 1:j] + [ts[i]] + ts[j + 1:])
            if group != "corpus":
                for r in REPL:
                    muts.append(ts[:i] + [r] + ts[i + 1:])
                    muts.append(ts[:i] + [r, " "] + ts[i:])
        for m in muts:
            if group == "corpus":
                both("".join(m), acc, len(text) < 600)
            else:
                both("".join(m), acc, True)
        if group == "mutate2":
            for m in muts[::3]:
                for i in solid(m):
                    verdict("".join(m[:i] + m[i + 1:]), acc, True)
        if muts:
            acc.sample("".join(muts[len(muts) // 2])[:300])
    elif group == "splice":
        a, b = lex(SPLICE[case[0]]), lex(SPLICE[case[1]])
        for i in solid(a):
            for j in solid(b):
                verdict("".join(a[:i + 1]) + " " + "".join(b[j:]), acc)
                acc.trace()
    elif group == "chars":
        for i in range(len(case) + 1):
            both(case[:i], acc)
            both(case[i:], acc)
            both(case[:i] + case[i + 1:], acc)
            for c in CHARS:
                both(case[:i] + c + case[i:], acc)
    elif group == "pump":
        pump(case[0], case[1], acc, (2000, 16000))
    elif group == "pumpfull":
        pump(case[0], case[1], acc, (1000, 8000), (True, True, True))
    elif group == "distinct":
        distinct(case[0], case[1], acc)
    elif group == "pump2":
        pump(case[0], case[1], acc, (1000, 8000))
    elif group == "deep":
        pre, o, mid, c, suf = DEEP[case]
        for n in (1, 2, 10, 50, 100):
            r = verdict(pre + o * n + mid + c * n + suf, acc, viable=False)
            verdict(pre + o * n + mid + c * n + suf, acc, True)
            verdict(pre + o * n + mid + c * (n - 1) + suf, acc)
            acc.trace()
        for n in (300, 1000, 5000):
            if case.startswith(("blocks", "symbols", "metadata")):
                verdict(pre + o * n + mid + c * n + suf, acc)
                verdict(pre + o * n + mid + c * n + suf, acc, True)
    elif group == "roots":
        t = case.upper()
        for txt in ("%s END", "%s\nEND\n", "%s END %s END", "# c\n%s END", "/* c */ %s END # c", "%s END %s END %s END"):
            s = txt.replace("%s", t)
            for cm in (False, True):
                if verdict(s, acc, cm) != "ok" and not case == "symbolset":
                    bad(acc, s, cm, "the block type %s is not accepted as the root" % t)
        if verdict(t + " END", acc) != "ok":
            bad(acc, t, False, "the block type %s is not accepted as the root" % t)
        # keywords of the type, at the root block
        for k in V.slots(case):
            for shape, item, cls in V.slot_samples(case, k, False)[:1]:
                s = D.render([("block", case, [item])])
                if verdict(s, acc) != "ok":
                    bad(acc, s, False, "partial Mapfile rejected")
        acc.trace()
