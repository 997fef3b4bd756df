"""C15: opening a Mapfile with INCLUDE lines is loading the text with the files put in their place."""
from __future__ import annotations
import io, itertools, os, pathlib, shutil, tempfile, time
from . import impl, space, options as O, doc as D
from .vocab import S, W
from .c12 import snap
from .c13 import EXTRA

PROP = "C15"
BOUNDS = {
    "quick": "every cut of one line, one block or the whole body out of ~620 core documents, every cut of consecutive lines of documents up to 14 lines, every pair of (disjoint or nested) cuts of documents up to 8 lines; every piece of 5 texts with strings, comments and empty lines, ending anywhere, with 3 x 7 different edges; all ordered include trees of up to 7 files, full trees (fan-out 1-4, depth 1-5), "
             "chains of depth 0-8, every cycle of length 1-4 entered at depth 0-3, shared files; ~60 spellings of the INCLUDE line x path forms x calls (open, load, loads, text streams) x 4 working directories; missing files at every depth; expand_includes=False over every block type and file name",
    "thorough": "cuts of documents up to 30 lines, pairs up to 14 lines, triples up to 7 lines, trees of up to 9 files",
}
ASSUMPTIONS = ["files are UTF-8 and begin outside strings and comments (an INCLUDE line inside one is no directive)",
               "the reference is the text after substitution, loaded by the same loader: inclusion only has to be substitution"]
HEAVY = ("cuts", "trees", "pairs")
CASE_LIMIT = 120.0

_parser = {}


def parser(comments=False):
    if comments not in _parser:
        _parser[comments] = (impl.Parser(include_comments=comments), impl.MapfileToDict(include_comments=comments, include_position=comments))
    return _parser[comments]


def outcome(f):
    try:
        return ("ok", snap(f()))
    except RecursionError:
        return ("recursion", "")
    except impl.LarkError as e:
        return ("exc", "LarkError", "")
    except Exception as e:
        return ("exc", type(e).__name__, impl.exc_text(e))


class Scratch:
    """a directory with the given files (relative name -> text); also the working directory on request"""

    def __init__(self, files=(), cwd=None):
        self.files, self.cwd = dict(files), cwd

    def __enter__(self):
        self.old = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="c15-"))
        for fn, t in self.files.items():
            self.write(fn, t)
        os.chdir(self.d if self.cwd is None else os.path.join(self.d, self.cwd))
        return self

    def write(self, fn, t):
        p = os.path.join(self.d, fn)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w", encoding="utf-8", newline="") as f:
            f.write(t)
        return p

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


# ---------------------------------------------------------------- ways to load
def by_open(fn, comments=False):
    p, m = parser(comments)
    return m.transform(p.parse_file(fn))


def by_load(fn, comments=False):
    p, m = parser(comments)
    with open(fn, encoding="utf-8") as fp:
        return m.transform(p.load(fp))


def by_text(text, comments=False):
    p, m = parser(comments)
    return m.transform(p.parse(text))


def by_stream(text, comments=False):
    p, m = parser(comments)
    return m.transform(p.load(io.StringIO(text)))


def compare(acc, sig, got, want, **detail):
    acc.trans()
    acc.trace()
    if got == want or got[0] == want[0] == "exc" and got[1] == want[1]:
        if want[0] == "ok":
            acc.state(want)
        return True
    acc.fail(sig, "with INCLUDE: %s; substituted: %s" % (str(got)[:900], str(want)[:900]), **detail)
    return False


def four(acc, sig, s, root, text, want, comments=False, **detail):
    """open, load, loads and a text stream; s.d is the working directory"""
    fn = s.write(root, text)
    ok = compare(acc, sig + "|open", outcome(lambda: by_open(fn, comments)), want, text=text, **detail)
    ok &= compare(acc, sig + "|load", outcome(lambda: by_load(fn, comments)), want, text=text, **detail)
    ok &= compare(acc, sig + "|loads", outcome(lambda: by_text(text, comments)), want, text=text, **detail)
    ok &= compare(acc, sig + "|stream", outcome(lambda: by_stream(text, comments)), want, text=text, **detail)
    return ok


# ---------------------------------------------------------------- cuts
def lines_of(doc):
    """the lines of a document, and (first, last) of every block"""
    toks = D.tokens(doc)
    seps = D.default_seps(toks)
    rows, blocks, stack = [""], [], []
    for i, (t, s) in enumerate(zip(toks, seps)):
        if s.startswith("\n"):
            rows.append(s[1:])
        else:
            rows[-1] += s
        if t.kind == "open":
            stack.append(len(rows) - 1)
        if t.kind == "end":
            blocks.append((stack.pop(), len(rows)))
        rows[-1] += t.text
    return rows, blocks


def plain_ok(doc):
    return all("\n" not in t.text and not t.text.upper().startswith("INCLUDE") for t in D.tokens(doc))


STYLE = ['INCLUDE "%s"', "  include '%s' # c", "\tInclude %s", "INCLUDE %s  ", 'INCLUDE  "%s"# "c"', "INCLUDE\t'%s'\r"]


def cut(rows, i, j, name, k=0):
    return rows[:i] + [STYLE[k % len(STYLE)] % name] + rows[j:], "\n".join(rows[i:j])


def single(doc, lab, cuts, acc, comments=True):
    rows, blocks = lines_of(doc)
    want = outcome(lambda: by_text("\n".join(rows)))
    wantc = outcome(lambda: by_text("\n".join(rows), True)) if comments else None
    acc.trans()
    if want[0] != "ok":
        acc.outcome("document not accepted")
        return
    with Scratch() as s:
        for k, (i, j) in enumerate(cuts(rows, blocks)):
            r, inc = cut(rows, i, j, "sub/inc.map" if k % 2 else "inc.map", k)
            fn = "sub/inc.map" if k % 2 else "inc.map"
            nl = "\r\n" if k % 3 == 2 else "\n"
            s.write(fn, inc.replace("\n", nl) + (nl if k % 2 else ""))
            sig = "%s|lines %d:%d|%d" % (lab, i, j, k)
            if not four(acc, sig, s, "root.map", ("\r\n" if k % 5 == 4 else "\n").join(r), want, include=inc):
                return
            if comments and not k % 2 and i < j:
                # bookkeeping too: a file without a final line break takes exactly the place of its line
                if not compare(acc, sig + "|comments", outcome(lambda: by_open(os.path.join(s.d, "root.map"), True)), wantc, text="\n".join(r), include=inc):
                    return


def cuts_block(rows, blocks):
    n = len(rows)
    out = [(i, i + 1) for i in range(n)] + blocks + [(a + 1, b - 1) for a, b in blocks] + [(0, n), (n, n), (0, 0)]
    return sorted(set(c for c in out if c[0] <= c[1]))


def cuts_all(rows, blocks):
    n = len(rows)
    return [(i, j) for i in range(n + 1) for j in range(i, n + 1)]


def multi(doc, lab, n, acc):
    """n cuts, one inside another or side by side, each a file of its own"""
    rows, blocks = lines_of(doc)
    want = outcome(lambda: by_text("\n".join(rows)))
    if want[0] != "ok":
        return
    N = len(rows)
    spans = [(i, j) for i in range(N) for j in range(i + 1, N + 1)]
    with Scratch() as s:
        for combo in itertools.combinations(spans, n):
            if any(a[0] < b[0] < a[1] < b[1] or b[0] < a[0] < b[1] < a[1] for a, b in itertools.combinations(combo, 2)):
                continue
            # innermost first; a cut replaces its lines by one, so keep the lines addressable by index
            body = [[r] for r in rows]
            for k, (i, j) in enumerate(sorted(combo, key=lambda c: (c[1] - c[0], c))):
                text = "\n".join(x for b in body[i:j] for x in b)
                name = ("d%d/" % k if k % 2 else "") + "i%d.map" % k
                s.write(name, text + ("\n" if k else ""))
                body[i] = [STYLE[(k + i) % 3] % name]
                for x in range(i + 1, j):
                    body[x] = []
            root = "\n".join(x for b in body for x in b)
            fn = s.write("root.map", root)
            if not compare(acc, "%s|cuts %r" % (lab, combo), outcome(lambda: by_open(fn)), want, text=root):
                return
            if not compare(acc, "%s|cuts %r|loads" % (lab, combo), outcome(lambda: by_text(root)), want, text=root):
                return


# ---------------------------------------------------------------- trees
def shapes(n):
    """ordered trees with n nodes as nested tuples"""
    if n == 1:
        return [()]
    out = []

    def forests(m):
        if m == 0:
            yield ()
            return
        for k in range(1, m + 1):
            for t in shapes(k):
                for rest in forests(m - k):
                    yield (t,) + rest
    return list(forests(n - 1))


def depth(t):
    return 0 if not t else 1 + max(map(depth, t))


def full(fan, dep):
    return () if dep == 0 else tuple(full(fan, dep - 1) for _ in range(fan))


def tree_files(t, where, style=0):
    """(files, text after substitution): node k contributes CONFIG lines around its includes"""
    files, count = {}, [0]

    def walk(t, root):
        me = count[0]
        count[0] += 1
        src, exp = ["CONFIG 'a%d' '1'" % me], ["CONFIG 'a%d' '1'" % me]
        for i, c in enumerate(t):
            name, text = walk(c, False)
            src.append(STYLE[(style + me + i) % 4] % name)
            exp.append(text)
            if (me + i) % 2:
                src.append("CONFIG 'b%d_%d' '2' # INCLUDE 'none'" % (me, i))
                exp.append("CONFIG 'b%d_%d' '2'" % (me, i))
        if root:
            src, exp = ["MAP"] + src + ["END"], ["MAP"] + exp + ["END"]
        name = where(me)
        files[name] = "\n".join(src) + ("\n" if me % 2 else "")
        return name, "\n".join(exp)
    name, text = walk(t, True)
    return name, files, text


WHERE = [lambda k: "f%d.map" % k, lambda k: "root.map" if not k else "d%d/e/f%d.map" % (k % 3, k), lambda k: "root.map" if not k else "./x/../y%d/f.inc" % k]


def tree(t, lab, acc, wheres=range(len(WHERE))):
    deep = depth(t) > 5
    for w in wheres:
        root, files, text = tree_files(t, WHERE[w], w)
        files = {k: v for k, v in files.items()}
        for cwd in ("", "other"):
            with Scratch(dict(files, **{"other/x": ""}), None) as s:
                os.makedirs(os.path.join(s.d, "x"), exist_ok=True)
                if cwd:
                    os.chdir(os.path.join(s.d, "other"))
                fn = os.path.join(s.d, root)
                want = outcome(lambda: by_text(text))
                if want[0] != "ok":
                    raise RuntimeError("reference text rejected: %r %r" % (want, text))
                calls = [("open", lambda: by_open(fn)), ("load", lambda: by_load(fn))]
                if not cwd:
                    calls.append(("loads", lambda: by_text(files[root])))
                else:
                    calls.append(("open relative", lambda: by_open(os.path.join("..", root))))
                for n, f in calls:
                    t0 = time.process_time()
                    got = outcome(f)
                    sig = "%s|%d|%s|%s" % (lab, w, cwd, n)
                    if deep:
                        acc.trans()
                        acc.trace()
                        if got[0] != "exc":
                            acc.fail(sig, "nested deeper than five files: %s" % str(got)[:500], files=files)
                            return
                        acc.outcome("too deep: " + got[1])
                    elif not compare(acc, sig, got, want, files=files):
                        return
                    if time.process_time() - t0 > 20:
                        acc.fail(sig + "|time", "%.0f s" % (time.process_time() - t0), files=files)
                        return


def chain(n):
    t = ()
    for _ in range(n):
        t = (t,)
    return t


def cycles(acc):
    for length in range(1, 5):
        for entry in range(4):
            for fan in (1, 2, 4):
                files = {"root.map": "MAP\nINCLUDE 'f0.map'\nEND"}
                for i in range(entry + length):
                    nxt = i + 1 if i + 1 < entry + length else entry
                    files["f%d.map" % i] = "\n".join(["INCLUDE 'f%d.map'" % nxt] * fan + ["DEBUG 1"])
                self_ = dict(files)
                self_["root.map"] = "MAP\nINCLUDE root.map\nEND"
                for fs in (files, self_):
                    with Scratch(fs) as s:
                        fn = os.path.join(s.d, "root.map")
                        for n, f in (("open", lambda: by_open(fn)), ("load", lambda: by_load(fn)), ("loads", lambda: by_text(fs["root.map"]))):
                            t0 = time.process_time()
                            got = outcome(f)
                            acc.trans()
                            acc.trace()
                            acc.state((length, entry, fan, n))
                            if got[0] != "exc" or time.process_time() - t0 > 20:
                                acc.fail("cycle|%d|%d|%d|%s" % (length, entry, fan, n), "cyclic inclusion: %s after %.1f s" % (str(got)[:300], time.process_time() - t0), files=fs)
                                return
                            acc.outcome("cycle: " + got[1])


def missing(acc):
    for dep in range(0, 6):
        for fan in (1, 3):
            for target, kind in (("nothing.map", "none"), ("sub", "directory"), ("no/such/dir.map", "dir"), ("/nonexistent-c15/x.map", "abs")):
                files = {"sub/x": ""}
                names = ["root.map"] + ["f%d.map" % i for i in range(dep)]
                for i, n in enumerate(names):
                    inc = names[i + 1] if i + 1 < len(names) else target
                    files[n] = "\n".join((["MAP"] if not i else []) + ["DEBUG 1"] + ["INCLUDE '%s'" % inc] * fan + (["END"] if not i else []))
                if dep == 5 and False:
                    continue
                with Scratch(files) as s:
                    fn = os.path.join(s.d, "root.map")
                    for n, f in (("open", lambda: by_open(fn)), ("load", lambda: by_load(fn)), ("loads", lambda: by_text(files["root.map"]))):
                        acc.trans()
                        acc.trace()
                        acc.state(("missing", dep, fan, kind, n))
                        try:
                            r = f()
                            got = "no error: %r" % (r,)
                        except OSError:
                            continue
                        except ValueError as e:
                            if dep >= 5:  # the sixth file may be refused before it is looked for
                                continue
                            got = repr(e)
                        except Exception as e:
                            got = type(e).__name__
                        acc.fail("missing|%d|%d|%s|%s" % (dep, fan, kind, n), "a missing file gives %s" % got[:400], files=files)
                        return


def shared_files(acc):
    """the same file included several times: not a cycle"""
    for n in (2, 3, 4):
        files = {"root.map": "MAP\n" + "INCLUDE 'l.map'\n" * n + "END", "l.map": "LAYER\nINCLUDE 'c.map'\nNAME 'x'\nINCLUDE 'c.map'\nEND", "c.map": "CLASS\nINCLUDE s.map\nEND", "s.map": "STYLE\nINCLUDE 'w.map'\nEND", "w.map": "INCLUDE \"v.map\"\nWIDTH 1", "v.map": "SIZE 2 # x"}
        st = "STYLE\nSIZE 2\nWIDTH 1\nEND"
        ly = "LAYER\nCLASS\n%s\nEND\nNAME 'x'\nCLASS\n%s\nEND\nEND\n" % (st, st)
        with Scratch(files) as s:
            want = outcome(lambda: by_text("MAP\n" + ly * n + "END"))
            four(acc, "shared|%d" % n, s, "root.map", files["root.map"], want)


# ---------------------------------------------------------------- spellings
KEYWORDS = ["INCLUDE", "include", "Include", "iNcLuDe"]
BEFORE = ["", "  ", "\t", " \t "]
TRAIL = ["", " ", "\t", " # c", "# c", " #", " # 'x'", ' # "x', " # INCLUDE 'y'", " ##", "  # END", "\r"]
NAMES = ["inc.map", "inc", "a.b.c", "sub/inc.map", "./inc.map", "sub/../inc.map", "../R/inc.map", "sub/deep/er/i-n_c.map", "INC.MAP", "é.map", "1.map", "include", "map", "end.map", ".hidden", "~inc", "a+b,c.map", "x%20y.map", "$x.map", "[a].map", "(b).map", "a&b;c.map", "a=b.map", "@.map", "a^b.map",
         "a$HOME.map", "${HOME}.map", "$HOME/inc.map", "~/inc.map", "%HOME%.map", "a?b.map", "a*.map", "?", "[i]nc.map", "{a,b}.map", "%(x)s.map", "{0}.map", "\\n.map", "a\\b.map", "file:inc.map", "x.map.gz", "-"]
QUOTED_ONLY = ["a b.map", "a  b/c d.map", "x#y.map", "#x.map", "a # b.map", "tab\there.map", "sub/*.map", " lead.map"]


def spellings():
    out = []
    for n in NAMES + QUOTED_ONLY:
        for q in ("'", '"', ""):
            if q or n not in QUOTED_ONLY:
                out.append(("INCLUDE", "", " ", q, n, ""))
    for kw in KEYWORDS:
        for b in BEFORE:
            for t in TRAIL:
                for q in ("'", '"', ""):
                    out.append((kw, b, " ", q, "sub/inc.map", t))
    for gap in ("  ", "\t", " \t ", ""):
        for q in ("'", '"', ""):
            if gap or q:
                out.append(("INCLUDE", "", gap, q, "inc.map", ""))
    for t in TRAIL:
        for q in ("'", '"'):
            for n in QUOTED_ONLY[:4]:
                out.append(("INCLUDE", "  ", " ", q, n, t))
    out += [("INCLUDE", "", " ", '"', "it's.map", t) for t in TRAIL[:6]] + [("INCLUDE", "", " ", "'", 'say "x".map', t) for t in TRAIL[:6]]
    return out


def spell(case, acc):
    kw, b, gap, q, n, t = case
    inc = "NAME 'i'\nLAYER\n# c\nTYPE POINT\nEND"
    want = outcome(lambda: by_text("MAP\nDEBUG 1\n%s\nUNITS METERS\nEND" % inc))
    for absolute in (False, True):
        with Scratch({"R/sub/x": "", "other/x": "", "R/deco": ""}) as s:
            s.write(os.path.join("R", n), inc)
            name = os.path.join(s.d, "R", n) if absolute else n
            text = "MAP\nDEBUG 1\n%s%s%s%s%s%s%s\nUNITS METERS\nEND" % (b, kw, gap, q, name, q, t)
            root = s.write("R/root.map", text)
            for cwd in ("R", "other", "R/sub", ""):
                os.chdir(os.path.join(s.d, cwd))
                calls = [("open", lambda: by_open(root)), ("open relative", lambda: by_open(os.path.relpath(root))), ("load", lambda: by_load(root)), ("load relative", lambda: by_load(os.path.relpath(root)))]
                if cwd == "R" or absolute:
                    calls += [("loads", lambda: by_text(text)), ("stream", lambda: by_stream(text))]
                for lab, f in calls:
                    if not compare(acc, "spell|%r|%s|%s|%s" % (case, absolute, cwd, lab), outcome(f), want, text=text):
                        return
            if not absolute and cwd != "R" and not n.startswith(".."):
                # plain strings do not look beside some other file
                os.chdir(os.path.join(s.d, "other"))
                acc.trans()
                try:
                    by_text(text)
                    acc.fail("spell|%r|cwd" % (case,), "loads found the file although it is not in the working directory", text=text)
                except OSError:
                    pass


# ---------------------------------------------------------------- text which is no directive
NOT = [("# INCLUDE 'none'", ""), ("  # include none", ""), ("NAME 'x' # INCLUDE 'none'", "NAME 'x'"), ("/* INCLUDE 'none' */", ""), ("/*\nINCLUDE 'none'\n*/", ""), ("NAME 'a\nINCLUDE none\n'", "NAME 'a\nINCLUDE none\n'"), ('NAME "a\nINCLUDE \'none\'\nb"', 'NAME "a\nINCLUDE \'none\'\nb"'),
       ("NAME 'INCLUDE none'", "NAME 'INCLUDE none'"), ("SHAPEPATH 'include'", "SHAPEPATH 'include'"), ("METADATA\n'include' 'none'\nEND", "METADATA\n'include' 'none'\nEND"), ("CONFIG 'INCLUDE' 'x'", "CONFIG 'INCLUDE' 'x'")]


def no_directive(acc):
    inc = "DEBUG 2"
    for a, b in NOT:
        for pre, post in (("", ""), ("INCLUDE 'inc.map'\n", ""), ("", "\nINCLUDE inc.map"), ("/* it's */\n", "\nINCLUDE 'inc.map'"), ("# it's\n", "\nINCLUDE 'inc.map'"), ("ANGLE 1 # \"\n", "\nINCLUDE \"inc.map\"")):
            with Scratch({"inc.map": inc}) as s:
                want = outcome(lambda: by_text("MAP\n%s%s%s\nEND" % ("DEBUG 2\n" if "INC" in pre else "ANGLE 1\n" if "ANGLE" in pre else "", b, "\nDEBUG 2" if post else "")))
                four(acc, "no directive|%s|%s|%s" % (pre, a, post), s, "root.map", "MAP\n%s%s%s\nEND" % (pre, a, post), want)


# ---------------------------------------------------------------- files which end inside a string or comment
PIECES = ['LAYER\nNAME "one\n\n\ntwo" # c\nTYPE POINT\nEND', "LAYER\nGROUP 'x\n\ny'\n/* a\n\nb */ NAME 'n'\n\n\nMETADATA\n'a\nb' 'c\n\n'\n\nEND\nEND", "CLASS\nEXPRESSION (\n[a] =\n\n1\n)\nTEXT '\n'\nEND",
          "MAP\n# a\n\n# b\nSIZE 1\n\n2\nLAYER\nEND\n\n\nEND", "STYLE\nPATTERN 1\n2\n\n3 4 END\nCOLOR\n1\n2\n3\nEND"]


def pieces(case, acc):
    """an included file may begin and end anywhere, as long as its line is a directive: with every edge"""
    case, i = case
    rows = PIECES[case].split("\n")
    if not by_scan("\n".join(rows[:i])):
        for j in range(i, len(rows) + 1):
            for head in ("", "\n", " \n\n"):
                for tail in ("", "\n", "\n\n", " \t", "\r\n", " # c", "\n "):
                    inc = head + "\n".join(rows[i:j]) + tail
                    want = outcome(lambda: by_text("\n".join(rows[:i] + [inc] + rows[j:])))
                    acc.trans()
                    with Scratch({"inc.map": inc}) as s:
                        if not four(acc, "piece|%d|%d:%d|%r|%r" % (case, i, j, head, tail), s, "root.map", "\n".join(rows[:i] + ["INCLUDE 'inc.map'"] + rows[j:]), want, include=inc):
                            return


def by_scan(before):
    """the text ends within a string or comment"""
    q = None
    i = 0
    while i < len(before):
        c = before[i]
        if q:
            if before.startswith(q, i):
                q = None
        elif before.startswith("/*", i):
            q = "*/"
        elif c in "\"'":
            q = c
        elif c == "#":
            q = "\n"
        i += 1
    return q not in (None, "\n")


# ---------------------------------------------------------------- expand_includes=False
def keep(case, acc):
    t, n = case
    s1 = space.SIMPLE[t]
    for q in ("'", '"', ""):
        if not q and (n in QUOTED_ONLY or any(c in n for c in "+,%$[]()&;=@^~é#:?*\\{}") or n.startswith(".") or n.lower() in ("map", "end", "include", "inc", "1.map")):
            continue
        for lines in (["INCLUDE %s"], ["INCLUDE %s", "INCLUDE 'second.map'"], ["INCLUDE %s # c", None], [None, "include %s"], [None, "INCLUDE %s", None, "Include 'z/y.map'"]):
            body, want = [], []
            used = 0
            for l in lines:
                if l is None:
                    if used:
                        continue
                    used = 1
                    toks = D.tokens([s1])
                    body.append(D.assemble(toks, D.default_seps(toks))[0])
                else:
                    body.append(l % (q + n + q) if "%s" in l else l)
                    want.append(n if "%s" in l else l.split("'")[1])
            text = "%s\n%s\nEND" % (t.upper(), "\n".join(body))
            for lab, f in (("loads", lambda x: impl.loads(x, expand=False)), ("comments", lambda x: impl.loads(x, expand=False, comments=True))):
                r = impl.attempt(f, text)
                acc.trans()
                sig = "keep|%s|%s|%s" % (text, lab, q)
                if r[0] != "ok":
                    acc.fail(sig, "expand_includes=False: %s %s" % r[1:], text=text)
                    return
                if r[1].get("include") != want:
                    acc.fail(sig, "directives are kept as %r, expected %r" % (r[1].get("include"), want), text=text)
                    return
                p = impl.attempt(impl.dumps, r[1])
                x = impl.attempt(f, p[1]) if p[0] == "ok" else p
                acc.trans(2)
                acc.trace()
                if x[0] != "ok" or x[1].get("include") != want or not all(any(l.strip().upper().startswith("INCLUDE") and w in l for l in p[1].split("\n")) for w in want):
                    acc.fail(sig, "written back as %s" % str(p)[:600], text=text)
                    return
                acc.state(p[1])
    acc.sample(text)


def public(i, acc):
    """the module-level functions"""
    inc = "LAYER # c\nNAME 'i'\nEND"
    text = "MAP\nNAME 'r'\nINCLUDE 'sub/inc.map'\nDEBUG 1\nEND"
    with Scratch({"R/sub/inc.map": inc, "R/root.map": text, "other/x": ""}) as s:
        root = os.path.join(s.d, "R/root.map")
        want = outcome(lambda: impl.pub.loads("MAP\nNAME 'r'\n%s\nDEBUG 1\nEND" % inc))
        wantc = outcome(lambda: impl.pub.loads("MAP\nNAME 'r'\n%s\nDEBUG 1\nEND" % inc, include_comments=True, include_position=True))

        def load(fn, **kw):
            with open(fn, encoding="utf-8") as fp:
                return impl.pub.load(fp, **kw)
        for cwd in ("R", "other", "", "R/sub"):
            os.chdir(os.path.join(s.d, cwd))
            compare(acc, "public|open|" + cwd, outcome(lambda: impl.pub.open(root)), want)
            compare(acc, "public|open|relative|" + cwd, outcome(lambda: impl.pub.open(os.path.relpath(root))), want)
            compare(acc, "public|open|path|" + cwd, outcome(lambda: impl.pub.open(pathlib.Path(root))), want)
            compare(acc, "public|load|" + cwd, outcome(lambda: load(root)), want)
            compare(acc, "public|load|relative|" + cwd, outcome(lambda: load(os.path.relpath(root))), want)
            compare(acc, "public|open|comments|" + cwd, outcome(lambda: impl.pub.open(root, include_comments=True, include_position=True)), wantc)
            compare(acc, "public|load|comments|" + cwd, outcome(lambda: load(root, include_comments=True, include_position=True)), wantc)
            if cwd == "R":
                compare(acc, "public|loads", outcome(lambda: impl.pub.loads(text)), want)
                compare(acc, "public|stream", outcome(lambda: impl.pub.load(io.StringIO(text))), want)
            else:
                for f in (lambda: impl.pub.loads(text), lambda: impl.pub.load(io.StringIO(text))):
                    got = outcome(f)
                    acc.trans()
                    if got[0] != "exc" or got[1] != "FileNotFoundError":
                        acc.fail("public|loads|" + cwd, "not looked up in the working directory: %s" % str(got)[:300])
            for f in (lambda: impl.pub.open(root, expand_includes=False), lambda: load(root, expand_includes=False), lambda: impl.pub.loads(text, expand_includes=False)):
                r = impl.attempt(f)
                acc.trans()
                if r[0] != "ok" or r[1].get("include") != ["sub/inc.map"] or "layers" in r[1].keys() or "INCLUDE \"sub/inc.map\"" not in impl.pub.dumps(r[1]):
                    acc.fail("public|keep|" + cwd, "expand_includes=False: %s" % str(r)[:500])


def cases(tier):
    th = tier == "thorough"
    out = []
    for l, d in O.core():
        if plain_ok(d):
            out.append(("cuts", (l, d)))
    small = [(l, d) for l, d in O.core() if plain_ok(d)]
    for g, (l, d) in space.documents("BDF", False):
        if plain_ok(d):
            small.append((g + " " + l, d))
    seen = set()
    for l, d in small:
        n = len(lines_of(d)[0])
        shape = tuple((t.kind, t.role, t.depth) for t in D.tokens(d))
        new = shape not in seen
        seen.add(shape)
        if n <= 14 and new or th and n <= 30:
            out.append(("all", (l, d)))
        if n <= 8 and new or th and n <= 14 and new:
            out.append(("pairs", (l, d, 2)))
        if th and n <= 7 and new:
            out.append(("pairs", (l, d, 3)))
    for n in range(1, 10 if th else 8):
        for t in shapes(n):
            out.append(("trees", ("tree %r" % (t,), t)))
    for n in range(0, 9):
        out.append(("trees", ("chain %d" % n, chain(n))))
    for fan, dep in ((1, 5), (2, 5), (3, 4), (4, 3), (2, 6), (4, 2), (3, 6) if th else (3, 2)):
        out.append(("trees", ("full %d %d" % (fan, dep), full(fan, dep))))
    # a chain of every depth beside other files
    for n in range(3, 8):
        out.append(("trees", ("beside %d" % n, ((), chain(n), ((),), ()))))
        out.append(("trees", ("beside at depth %d" % n, (chain(n - 2) + ((), ()),))))
    for n in ("cycles", "missing", "shared", "none"):
        out.append((n, 0))
    out += [("spell", s) for s in spellings()]
    ts = [t for t in D.BLOCK_TYPES if t != "symbol"] + ["symbol", "symbolset"]
    for t in ts:
        for n in NAMES + QUOTED_ONLY if t in ("map", "layer") or th else NAMES[:6] + QUOTED_ONLY[:2]:
            if t == "symbolset":
                continue
            out.append(("keep", (t, n)))
    out.append(("public", 0))
    out += [("pieces", (i, j)) for i, t in enumerate(PIECES) for j in range(t.count("\n") + 2)]
    impl.warm()
    for c in (False, True):
        by_text("MAP END", c)
    impl.loads("MAP END", comments=True, expand=False)
    return out


def step(group, case, acc):
    if group == "pieces":
        pieces(case, acc)
    elif group == "cuts":
        single(case[1], case[0], cuts_block, acc)
        acc.sample(case[0])
    elif group == "all":
        single(case[1], "all " + case[0], cuts_all, acc, False)
        acc.sample(case[0])
    elif group == "pairs":
        multi(case[1], case[0], case[2], acc)
        acc.sample(case[0])
    elif group == "trees":
        tree(case[1], case[0], acc)
        acc.sample(case[0])
    elif group == "cycles":
        cycles(acc)
    elif group == "missing":
        missing(acc)
    elif group == "shared":
        shared_files(acc)
    elif group == "none":
        no_directive(acc)
    elif group == "spell":
        spell(case, acc)
        acc.sample(repr(case))
    elif group == "keep":
        keep(case, acc)
    elif group == "public":
        public(case, acc)
