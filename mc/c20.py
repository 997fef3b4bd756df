"""C20: files, streams and the command line give what the string functions give."""
from __future__ import annotations
import codecs, glob, io, itertools, json, os, pathlib, shutil, subprocess, sys, tempfile
from . import impl, space, options as O, doc as D, vocab as V
from .vocab import S, W
from .c12 import snap
from .c09 import plainj, all_versions

PROP = "C20"
BOUNDS = {
    "quick": "reading: ~620 core documents, the corpus and the root documents x 4 kinds of line end x comments/positions x open / load from 5 kinds of stream / loads; writing: the same documents x 8 option sets x save / dump to 4 kinds of stream / dumps, and 720 option sets x 6 documents; "
             "every code point (1,112,064) as a string value, alone and between letters, with both quotes, through save and open; every string of length 1-3 over 21 troublesome characters in three kinds of keyword; multi-byte characters at every offset around 4 buffer sizes; "
             "format: the product of its options (780 sets) on a document with everything and 64 sets on 14 documents; validate: files with every number of errors 0-300, all ordered pairs of 17 kinds of file, triples of 5, all versions, every keyword with a wrong value; schema: every version; each command line in a process of its own, ~130 of them by starting the installed program under 3 locales",
    "thorough": "strings of length 4, documents of groups C, E, G, K and X, the complete format product (12,600 sets), triples of 17 kinds of file, ~1,000 real processes",
}
ASSUMPTIONS = ["string values hold no unescaped occurrence of the output quote (documented limit of the format)",
               "most command lines run the click entry point in a forked process, whose exit status the kernel reports; the rest start the program itself"]
HEAVY = ("points", "read", "write", "validate", "format", "real", "count")
CASE_LIMIT = 200.0
PY = sys.executable


class Dir:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix="c20-"))
        os.chdir(self.d)
        return self

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, fn, text):
        fn = os.path.join(self.d, fn) if isinstance(fn, str) else os.path.join(os.fsencode(self.d), fn)
        os.makedirs(os.path.dirname(fn), exist_ok=True)
        with open(fn, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode("utf-8"))
        return fn

    def get(self, fn):
        with open(os.path.join(self.d, fn), "rb") as f:
            return f.read()


def outcome(f):
    try:
        return ("ok", snap(f()))
    except RecursionError:
        return ("recursion",)
    except impl.LarkError:
        return ("exc", "LarkError")
    except Exception as e:
        return ("exc", type(e).__name__)


def differ(acc, sig, got, want, **detail):
    acc.trans()
    if got != want:
        acc.fail(sig, "%s\nexpected %s" % (str(got)[:1200], str(want)[:1200]), **detail)


# ------------------------------------------------------------------ reading
class Minimal:
    """only what the docstring asks for: an object with read()"""

    def __init__(self, text):
        self.read = lambda: text


def streams(fn, text):
    """[(label, function giving an open text stream)]: all of them deliver exactly `text`"""
    return [("file", lambda: open(fn, encoding="utf-8", newline="")),
            ("stringio", lambda: io.StringIO(text, newline="")),
            ("codecs", lambda: codecs.open(fn, "r", encoding="utf-8")),
            ("wrapper", lambda: io.TextIOWrapper(io.BytesIO(text.encode("utf-8")), encoding="utf-8", newline="")),
            ("minimal", lambda: Minimal(text))]


_objs = {}


def objs(c, p, e):
    k = (c, p, e)
    if k not in _objs:
        _objs[k] = (impl.Parser(expand_includes=e, include_comments=c), impl.MapfileToDict(include_position=p, include_comments=c))
    return _objs[k]


ENDS = [("lf", lambda t: t), ("crlf", lambda t: t.replace("\n", "\r\n")), ("cr", lambda t: t.replace("\n", "\r")),
        ("mixed", lambda t: "\r\n".join(t.split("\n", 1)) + "\r")]


def close(fp):
    if hasattr(fp, "close"):
        fp.close()


def read_one(s, text, lab, acc, public=False, few=False):
    for name, f in ENDS:
        x = f(text)
        if "\n" not in text and name in ("cr", "crlf"):
            continue
        fn = s.put("in %s.map" % name, x)
        for c, p, e in (itertools.product((False, True), (False, True), (True, False)) if name == "lf" else [(False, False, True), (True, True, True)]) if public else [(False, False, True), (True, True, True)]:
            if impl.has_include(x) and e:
                continue  # C15
            if public:
                kw = dict(include_comments=c, include_position=p, expand_includes=e)
                l1, l2, l3 = (lambda: impl.pub.loads(x, **kw)), (lambda: impl.pub.open(fn, **kw)), (lambda fp: impl.pub.load(fp, **kw))
            else:
                P, M = objs(c, p, e)
                l1, l2, l3 = (lambda: M.transform(P.parse(x))), (lambda: M.transform(P.parse_file(fn))), (lambda fp: M.transform(P.load(fp)))
            want = outcome(l1)
            sig = "read|%s|%s|%d%d%d" % (lab, name, c, p, e)
            differ(acc, sig + "|open", outcome(l2), want, text=x)
            acc.trans()
            for n, mk in streams(fn, x)[:1 if few else 5]:
                fp = mk()
                differ(acc, sig + "|" + n, outcome(lambda: l3(fp)), want, text=x)
                close(fp)
            if public:
                differ(acc, sig + "|open-path", outcome(lambda: impl.pub.open(pathlib.Path(fn), **kw)), want, text=x)
                if name != "lf":  # a stream which translates line ends is the text it delivers
                    with open(fn, encoding="utf-8") as fp:
                        differ(acc, sig + "|translated", outcome(lambda: impl.pub.load(fp, **kw)), outcome(lambda: impl.pub.loads(x.replace("\r\n", "\n").replace("\r", "\n"), **kw)), text=x)
            acc.trace()
            acc.state((lab, name, c, p, e, want[0]))


def step_read(case, acc):
    with Dir() as s:
        for lab, text in case:
            acc.outcome("read")
            read_one(s, text, lab, acc)


def step_readpub(case, acc):
    with Dir() as s:
        read_one(s, case[1], case[0], acc, public=True)


# ------------------------------------------------------------------ writing
SETS = O.product((0, 2, 4), (" ", "\t"), ('"', "'"), ("\n", "\r\n"), [(False, False, False), (True, True, True)])[::3]
KW = ("indent", "spacer", "quote", "newlinechar", "end_comment", "align_values", "separate_complex_types")


class Sink:
    """only write()"""

    def __init__(self):
        self.parts = []

    def write(self, x):
        self.parts.append(x)


def written(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("exc", type(e).__name__)


def write_one(s, make, lab, sets, acc):
    for o in sets:
        kw = O.kw(o)
        sig = "write|%s|%s" % (lab, ",".join(repr(x) for x in o))

        def save():
            r = impl.pub.save(make(), os.path.join(s.d, "out.map"), **kw)
            return s.get("out.map").decode("utf-8")

        def sink():
            k = Sink()
            impl.pub.dump(make(), k, **kw)
            return "".join(k.parts)

        def stringio():
            k = io.StringIO(newline="")
            impl.pub.dump(make(), k, **kw)
            return k.getvalue()

        def stream(op):
            def g():
                with op(os.path.join(s.d, "out2.map")) as k:
                    impl.pub.dump(make(), k, **kw)
                return s.get("out2.map").decode("utf-8")
            return g
        want = written(lambda: impl.pub.dumps(make(), **kw))
        differ(acc, sig + "|save", written(save), want)
        differ(acc, sig + "|sink", written(sink), want)
        differ(acc, sig + "|stringio", written(stringio), want)
        differ(acc, sig + "|file", written(stream(lambda fn: open(fn, "w", encoding="utf-8", newline=""))), want)
        differ(acc, sig + "|codecs", written(stream(lambda fn: codecs.open(fn, "w", encoding="utf-8"))), want)
        # positional arguments in the documented order
        differ(acc, sig + "|positional", written(lambda: impl.pub.dumps(make(), *[kw[k] for k in KW])), want)
        differ(acc, sig + "|save-positional", written(lambda: impl.pub.save(make(), os.path.join(s.d, "out.map"), *[kw[k] for k in KW]) and s.get("out.map").decode("utf-8")), want)
        acc.trans()
        acc.trace()
        acc.state((lab, o))


def step_write(case, acc):
    with Dir() as s:
        for lab, text, sets in case:
            r = impl.attempt(impl.loads, text, comments=True, expand=False)
            if r[0] != "ok":
                continue
            acc.outcome("write")
            d = r[1]
            write_one(s, lambda: d, lab, sets, acc)


def step_writebad(case, acc):
    """dictionaries that can't be printed: the three functions agree there too"""
    with Dir() as s:
        write_one(s, lambda: {"__type__": "map", "name": float("nan")}, "nan", SETS, acc)
        write_one(s, lambda: {"__type__": "map", "name": object()}, "object", SETS, acc)
        write_one(s, lambda: [], "empty list", SETS, acc)
        write_one(s, lambda: {"__type__": "map", "name": "\ud800"}, "surrogate", [], acc)


# ------------------------------------------------------------------ string values
def cycle(s, d, acc, sig, quotes='"\'', check=None):
    for q in quotes:
        dd = check(q) if check else d
        fn = os.path.join(s.d, "v.map")
        for nl in ("\n",) if check else ("\n", "\r\n"):
            r = impl.attempt(impl.pub.save, dd, fn, quote=q, newlinechar=nl)
            acc.trans()
            if r[0] != "ok":
                acc.fail(sig + "|save|" + q, "save: %s" % (r[1:],))
                continue
            raw = s.get("v.map")
            t = written(lambda: impl.dumps(dd, quote=q, newlinechar=nl))
            if t != ("ok", raw.decode("utf-8", "replace")):
                acc.fail(sig + "|dumps|" + q, "the file holds %r, dumps gives %r" % (raw[:300], t[1][:300]))
            P, M = objs(False, False, True)
            r = impl.attempt(lambda: M.transform(P.parse_file(fn)))
            acc.trans(2)
            acc.trace()
            if r[0] != "ok":
                acc.fail(sig + "|open|" + q, "open: %s" % (r[1:],), text=raw[:600].decode("utf-8", "replace"))
            elif plain(r[1]) != plain(dd):
                acc.fail(sig + "|value|" + q, "read back: %s" % first_difference(plain(r[1]), plain(dd)), text=raw[:600].decode("utf-8", "replace"))
        acc.state((sig, q))


def plain(x):
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x


def first_difference(a, b, where=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return "%s.%s is in one only" % (where, k)
            if a[k] != b[k]:
                return first_difference(a[k], b[k], "%s.%s" % (where, k))
    if isinstance(a, list) and isinstance(b, list):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, "%s[%d]" % (where, i))
        return "%s: %d and %d elements" % (where, len(a), len(b))
    if isinstance(a, str) and isinstance(b, str):
        return "%s: %s instead of %s" % (where, ascii(a[:200]), ascii(b[:200]))
    return "%s: %r instead of %r" % (where, a, b)


def step_points(case, acc):
    """code points lo..hi-1 as values of their own and between letters"""
    lo, hi, full = case
    cps = [chr(c) for c in range(lo, hi) if not 0xD800 <= c < 0xE000]
    if not cps:
        return

    def build(q):
        cs = [c for c in cps if c != q]
        alone = [c for c in cs if c != "\\"]
        d = {"__type__": "layer", "name": "".join(cs) + ".", "processing": alone}
        if full:
            d["processing"] = alone + ["a%sb" % c for c in cs]
            d["metadata"] = {"__type__": "metadata", **{"k%d" % i: c for i, c in enumerate(alone)}}
        return d
    with Dir() as s:
        cycle(s, None, acc, "points|%x" % lo, '"\'' if full else '"', build)
    acc.outcome("code points")


ALPHA = ["a", "é", "\U0001f600", "\u2028", "\x85", "\x00", "\ufeff", "\r", "\n", "\t", " ", "'", '"', "#", "/", "*", "\\", "[", "{", "(", "\ninclude x\n"]


def ok_value(x, q):
    return q not in x and not x.endswith("\\")


def step_strings(case, acc):
    """all values that start with the given characters and have the given length"""
    head, n = case
    with Dir() as s:
        vals = ["".join(head) + "".join(t) for t in itertools.product(ALPHA, repeat=n)]

        def build(q):
            vs = [v for v in vals if ok_value(v, q)]
            if not vs:
                return {"__type__": "layer"}
            return {"__type__": "layer", "processing": vs, "metadata": {"__type__": "metadata", **{"k%d" % i: c for i, c in enumerate(vs)}}}
        cycle(s, None, acc, "strings|%s%d" % (ascii("".join(head)), n), '"\'', build)
        if len(head) + n <= 2:
            for v in vals:
                for q in '"\'':
                    if ok_value(v, q):
                        for k in ("name", "group", "template"):
                            cycle(s, {"__type__": "layer", k: v, "classes": [{"__type__": "class", "name": v}]}, acc, "string|%s|%s" % (ascii(v), k), q)
    acc.outcome("strings")


def step_boundary(case, acc):
    size, ch = case
    with Dir() as s:
        head = len('LAYER\n    NAME "')
        for off in range(-6, 7):
            n = size - head + off
            if n < 0:
                continue
            v = "a" * n + ch * 3 + "z"
            cycle(s, {"__type__": "layer", "name": v}, acc, "boundary|%d%+d|%s" % (size, off, ascii(ch)))
            fn = s.put("b.map", 'LAYER\n    NAME "%s"\nEND' % v)
            P, M = objs(False, False, True)
            for nm, mk in streams(fn, 'LAYER\n    NAME "%s"\nEND' % v):
                fp = mk()
                differ(acc, "boundary|%d%+d|%s|%s" % (size, off, ascii(ch), nm), M.transform(P.load(fp))["name"], v)
                close(fp)
    acc.outcome("boundary")


def step_ends(case, acc):
    """values that end with a backslash"""
    v, q = case
    with Dir() as s:
        cycle(s, {"__type__": "layer", "name": v, "group": "g"}, acc, "ends|%s|%s" % (ascii(v), q), q)


# ------------------------------------------------------------------ the command line
def cli(s, args):
    """run `mappyfile args` in a forked process: (exit status, stdout)"""
    out = os.path.join(s.d, ".stdout")
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 70
        try:
            import signal
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(120)
            fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
            nul = os.open(os.devnull, os.O_WRONLY)
            os.dup2(fd, 1)
            os.dup2(nul, 2)
            sys.stdout = io.TextIOWrapper(os.fdopen(1, "wb", closefd=False), encoding="utf-8", errors="surrogateescape")
            sys.stderr = io.TextIOWrapper(os.fdopen(2, "wb", closefd=False), encoding="utf-8", errors="backslashreplace")
            sys.argv = ["mappyfile"] + list(args)
            from mappyfile.cli import main
            try:
                r = main()
                code = 0 if r is None else r
            except SystemExit as e:
                code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
            except BaseException:
                code = 1
            sys.stdout.flush()
        finally:
            os._exit(code & 0xFF)
    _, st = os.waitpid(pid, 0)
    with open(out, "rb") as f:
        text = f.read().decode("utf-8", "replace")
    return (os.WEXITSTATUS(st) if os.WIFEXITED(st) else "signal %d" % os.WTERMSIG(st)), text


LOCALES = {"utf8": {"LC_ALL": "C.UTF-8"}, "c": {"LC_ALL": "C", "PYTHONUTF8": "0", "PYTHONCOERCECLOCALE": "0"}, "none": {"PYTHONUTF8": "1"}}
PROG = "/opt/venv/bin/mappyfile"


def real(s, args, env="utf8"):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "MC_", "COV"))}
    e.update(LOCALES[env])
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    if impl.REPO == "/repo" and os.path.exists(PROG):
        cmd = [PROG]
    else:
        e["PYTHONPATH"] = impl.REPO
        cmd = [PY, "-P", "-c", "import sys; sys.argv[0] = 'mappyfile'; from mappyfile.cli import main; sys.exit(main())"]
    p = subprocess.run(cmd + list(args), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=150, cwd=s.d)
    return p.returncode, p.stdout.decode("utf-8", "replace")


INC = {"sub/inc.map": "LAYER # included\n  NAME 'ïncluded'\n  INCLUDE 'class.map'\nEND\n", "class.map": "CLASS\n  NAME \"x\" # é\nEND", "sub/class.map": "CLASS NAME 'wrong place' END"}
ALL = """# first
MAP # the map
  NAME "Ünïcödé \U0001f600"
  EXTENT -1 2.50 3e3 4
  /* block
     comment */
  INCLUDE "sub/inc.map" # here
  WEB
    METADATA
      "wms_title" "it is" # title
      'ows\u2028x' ''
    END
  END
  LAYER
    TYPE polygon
    DATA "a
b"
    PROJECTION
      "init=epsg:4326" # p
    END
    CLASS
      EXPRESSION ([x] > 5 and "[n]" = 'é')
      STYLE COLOR 1 2 3 WIDTH 2 END
    END
  END
END
"""
FILES = [
    ("all", ALL), ("plain", "MAP\nNAME 'x'\nEND\n"), ("empty map", "MAP END"), ("crlf", "MAP # c\r\nNAME 'a\r\nb'\r\nLAYER\r\nTYPE LINE # t\r\nEND\r\nEND\r\n"),
    ("cr", "MAP\rNAME 'a\rb'\rEND"), ("single", "MAP\nNAME \"it's\"\nEND"), ("double", "MAP\nNAME 'say x'\nSHAPEPATH \"it is\"\nEND # e"),
    ("roots", "LAYER NAME 'a' END\nLAYER NAME 'b' END\nCLASS END"), ("partial", "STYLE\nCOLOR [c]\nEND"), ("symbolset", "SYMBOLSET\n# s\nSYMBOL\nNAME 'x'\nTYPE ELLIPSE\nPOINTS 1 1 END\nEND\nEND"),
    ("invalid", "MAP\nEXTENT 1 2\nNAME 'x'\nEND"), ("astral", "MAP\n# \U0001f600\nNAME '\U0001f600\u2029'\nEND"), ("only include", "INCLUDE \"sub/inc.map\""), ("deep", "MAP LAYER CLASS LABEL STYLE GEOMTRANSFORM (buffer([shape],5)) END END END END END"),
]
BAD = [("syntax", "MAP NAME ( END"), ("encoding", b"MAP NAME '\xff\xfe' END"), ("missing", "MAP INCLUDE 'nofile.map' END\nINCLUDE 'nofile.map'"), ("nothing", "")]


def absent(x):
    return x is None


INDENTS = [None, "0", "1", "2", "8"]
SPACERS = [None, " ", "\\t", "\t", "\u00a0"]
QUOTES = [None, '"', "'", "\\'"]
NLS = [None, "\\n", "\r\n", "\\r\\n", "\\n\\n"]
BOOLE = [None, "--expand", "--no-expand"]
BOOLC = [None, "--comments", "--no-comments"]
ESC = {"\\t": "\t", "\\'": "'", '\\"': '"', "\\n": "\n", "\\r\\n": "\r\n", "\\n\\n": "\n\n"}


def format_sets(tier):
    if tier == "all":
        return list(itertools.product(INDENTS + ["3", "4"], SPACERS + ["  ", "\\u0020"], QUOTES + ['\\"'], NLS + ["\n"], BOOLE, BOOLC))
    if tier == "main":
        return [x for x in itertools.product([None, "0", "2"], SPACERS, QUOTES[:1] + QUOTES[2:], NLS[:4], BOOLE[1:], BOOLC[1:])] + \
               [x for x in itertools.product(INDENTS, [None, "\\t"], QUOTES[1:3], [None, "\\n\\n"], BOOLE, [None])]
    return list(itertools.product([None, "2"], [None, "\\t"], [None, "'"], [None, "\\r\\n"], [None, "--no-expand"], [None, "--comments"]))


def format_args(o):
    return [x for part in format_parts(o) for x in part]


def format_parts(o):
    a = []
    for n, v in zip(("--indent", "--spacer", "--quote", "--newlinechar"), o):
        if v is not None:
            a.append(["%s=%s" % (n, v)] if len(v) % 2 else [n, v])
    return a + [[x] for x in o[4:] if x]


def expected_format(s, fn, o, cache):
    """('ok', bytes) | ('exc', type) of save(open(IN)) with these options"""
    kw = {}
    for n, v in zip(("indent", "spacer", "quote", "newlinechar"), o):
        if v is not None:
            kw[n] = int(v) if n == "indent" else ESC.get(v, v).replace("\\u0020", " ")
    ok = {"expand_includes": o[4] != "--no-expand", "include_comments": o[5] == "--comments"}
    k = (fn, tuple(ok.values()))

    def go():
        # a new load for every call: the dictionary given to save is the user's
        if k not in cache:
            cache[k] = impl.pub.open(fn, **ok)
        out = os.path.join(s.d, ".expected")
        impl.pub.save(cache[k], out, **kw)
        return s.get(".expected")
    return written(go)


def check_format(s, fn, o, acc, sig, run, cache, same=False, lead=()):
    want = expected_format(s, fn, o, cache)
    out = fn if same else os.path.join(s.d, "öut put.map")
    old = s.get(fn)
    if not same:
        s.put("öut put.map", "old content " * 400)
    parts = format_parts(o)
    st, text = run(list(lead) + ["format"] + sum(parts[:2], []) + [fn, out] + sum(parts[2:], []))
    acc.trans(2)
    acc.trace()
    acc.outcome("format %s" % want[0])
    if want[0] == "ok":
        got = s.get(out)
        if st != 0 or got != want[1]:
            acc.fail(sig, "exit status %s, written %r\nsave(open(IN)) writes %r" % (st, got[:600], want[1][:600]), args=format_args(o))
    elif st == 0:
        acc.fail(sig, "exit status 0 although save(open(IN)) raises %s" % want[1], args=format_args(o))
    if same:
        s.put(fn, old)
    elif s.get(fn) != old:
        acc.fail(sig + "|input", "the input file was changed")
    acc.state((sig,))


def world(s):
    for k, v in INC.items():
        s.put(k, v)
    return {n: s.put("ïn %s.map" % n if n in ("all", "astral") else n.replace(" ", "_") + ".map", t) for n, t in FILES + BAD}


def step_format(case, acc):
    which, sets = case
    with Dir() as s:
        fns, cache = world(s), {}
        for o in sets:
            check_format(s, fns[which], o, acc, "format|%s|%s" % (which, " ".join(map(ascii, o))), lambda a: cli(s, a), cache)
        o = (None, "\\t", None, None, None, "--comments")
        check_format(s, fns[which], o, acc, "format|%s|same file" % which, lambda a: cli(s, a), cache, same=True)
        for lead in (["-v"], ["-q"], ["-vv"], ["--verbose", "--quiet"], ["-vvvvv"], ["-qqq"]):
            check_format(s, fns[which], o, acc, "format|%s|%s" % (which, " ".join(lead)), lambda a: cli(s, a), cache, lead=lead)


# ---- validate
def n_errors(n):
    return "MAP\n" + "".join("LAYER\nOPACITY 'x%d'\nEND\n" % i for i in range(n)) + "NAME 'x'\nEND"


KINDS = [
    ("valid", "MAP NAME 'x' END"), ("one", "MAP\nEXTENT 1 2\nEND"), ("two", "MAP\nEXTENT 1 2\nLAYER\nTYPE é\nEND\nEND"), ("syntax", "MAP NAME ( END"), ("255", n_errors(255)), ("symbolset", "SYMBOLSET SYMBOL NAME 'x' TYPE ELLIPSE POINTS 1 1 END END END"),
    ("256", n_errors(256)), ("257", n_errors(257)), ("300", n_errors(300)), ("encoding", b"MAP NAME '\xff' END"), ("missing", "MAP\nINCLUDE 'nofile.map'\nEND"), ("inc error", "MAP\nINCLUDE 'err.inc'\nEND"),
    ("roots", "LAYER\nTYPE POINT\nEND\nLAYER\nTYPE WRONG\nEND\nCLASS\nSTATUS MAYBE\nEND"), ("versioned", "MAP\nLAYER\nTYPE POINT\nUTFITEM 'x'\nCOMPOSITE OPACITY 10 END\nEND\nEND"), ("nothing", ""), ("partial", "STYLE\nWIDTH 'x y'\nSIZE 'z z'\nEND"),
    ("cycle", "MAP\nINCLUDE 'cycle.map'\nEND"), ("unknown", "MAP\nFOO 1\nBAR 2\nLAYER\nNOTHING 'x'\nEND\nEND"),
]


def vworld(s):
    s.put("err.inc", "LAYER\nTYPE ü\nEND")
    return {n: s.put(n.replace(" ", "_") + ".map", t) for n, t in KINDS}


_exp = {}


def expected_validate(text_key, fn, expand, version):
    """None (doesn't parse) or the messages of validate(open(fn))"""
    k = (text_key, expand, version)
    if k not in _exp:
        try:
            d = impl.pub.open(fn, expand_includes=expand, include_position=True)
        except Exception:
            _exp[k] = None
        else:
            _exp[k] = impl.pub.validate(d, version)
    return _exp[k]


def check_validate(acc, sig, files, run, expand=True, version=None, patterns=None, flags=(), names=None):
    """files: [(key, file name)] in the order they are matched"""
    args = ["validate"] + ([] if expand is True else ["--no-expand"]) + list(flags) + (["--version", str(version)] if version is not None else []) + list(patterns or [f for _, f in files])
    exp = [(f, expected_validate(k, f, expand, 8.2 if version is None else version)) for k, f in files]
    st, text = run(args)
    acc.trans(1 + len(files))
    acc.trace()
    count = sum(1 if m is None else len(m) for _, m in exp)
    acc.outcome("validate %s" % ("ok" if not count else "few" if count < 256 else "many"))
    if (st == 0) != (count == 0):
        acc.fail(sig + "|status", "exit status %s with %d problems" % (st, count), args=args, output=text[-1500:])
    elif count < 256 and st != count:
        acc.fail(sig + "|status", "exit status %s with %d problems" % (st, count), args=args, output=text[-1500:])
    lines = text.split("\n")
    seen = {}
    for f, ms in exp:
        for m in ms or []:
            k = (f, m["message"], m["error"], m.get("line"), m.get("column"))
            seen[k] = seen.get(k, 0) + 1
    for f, ms in exp:
        mine = [l for l in lines if f in l]
        keys = {(m["message"], m["error"]) for m in ms or []}
        for msg, err in keys:
            n = sum(v for k, v in seen.items() if k[0] == f and k[1] == msg and k[2] == err)
            got = [l for l in mine if msg in l and err in l]
            if len(got) != n:
                acc.fail(sig + "|lines", "%d lines for %d messages %r of %s" % (len(got), n, (msg, err), f), args=args, output=text[:1500])
                return
            where = sorted((k[3], k[4]) for k, v in seen.items() if k[0] == f and k[1] == msg and k[2] == err)
            for ln, col in where:
                if not any(str(ln) in l.replace(f, "") and str(col) in l.replace(f, "") for l in got):
                    acc.fail(sig + "|place", "no line names %s:%s for %r" % (ln, col, (msg, err)), args=args, output=text[:1500])
                    return
    acc.state((sig, st))


def step_validate(case, acc):
    with Dir() as s:
        fns = vworld(s)
        for names in case:
            check_validate(acc, "validate|" + "+".join(names), [(n, fns[n]) for n in names], lambda a: cli(s, a))


def step_count(case, acc):
    with Dir() as s:
        for n in case:
            f = s.put("n%d.map" % n, n_errors(n))
            check_validate(acc, "count|%d" % n, [(("n", n), f)], lambda a: cli(s, a))


def step_split(case, acc):
    """the errors of several files add up"""
    with Dir() as s:
        fs = [(("n", n), s.put("f%d.map" % i, n_errors(n))) for i, n in enumerate(case)]
        check_validate(acc, "split|%s" % (case,), fs, lambda a: cli(s, a))


def step_versions(v, acc):
    with Dir() as s:
        fns = vworld(s)
        for n in ("versioned", "two", "roots", "inc error"):
            for e in (True, False):
                check_validate(acc, "version|%s|%s|%s" % (n, v, e), [(n, fns[n])], lambda a: cli(s, a), expand=e, version=v)


def step_faults(case, acc):
    """a wrong value for every keyword of a type"""
    t, part, texts = case
    with Dir() as s:
        fs = []
        for i, x in enumerate(texts):
            fs.append(((t, part, i), s.put("%s%d-%d.map" % (t, part, i), x)))
        check_validate(acc, "faults|%s|%d" % (t, part), fs, lambda a: cli(s, a))
        for k, f in fs:
            ms = expected_validate(k, f, True, 8.2)
            acc.outcome("keyword wrong" if ms else "keyword fine" if ms is not None else "keyword not parsed")


def fault_texts(t):
    out = []
    for k in V.slots(t):
        kw = k.upper()
        if k in ("include",):
            continue
        body = ["%s 'a b c'" % kw, "%s -99999 1" % kw, "%s wrong" % kw]
        for b in body:
            x = "%s\n%s\nEND" % (t.upper(), b)
            if impl.attempt(impl.loads, x)[0] == "ok":
                out.append(x)
    return out


def step_globs(case, acc):
    with Dir() as s:
        a = [("one", s.put("d/b one.map", dict(KINDS)["one"])), ("valid", s.put("d/a valid.map", dict(KINDS)["valid"]))]
        b = [("two", s.put("e/two.map", dict(KINDS)["two"])), ("valid", s.put("e/deep/v.map", dict(KINDS)["valid"]))]
        s.put("d/note.txt", "no map")
        run = lambda x: cli(s, x)
        d = lambda *p: os.path.join(s.d, *p)
        check_validate(acc, "globs|star", a, run, patterns=[d("d", "*.map")])
        check_validate(acc, "globs|two", a + b[:1], run, patterns=[d("d", "*.map"), d("e", "*.map")])
        check_validate(acc, "globs|folder beside", a, run, patterns=[d("e"), d("d", "*.map")])
        check_validate(acc, "globs|folder matched", b[:1], run, patterns=[d("e", "*")])
        check_validate(acc, "globs|no match beside", a, run, patterns=[d("nothing*"), d("d", "*.map"), d("none.map")])
        check_validate(acc, "globs|class", a[1:], run, patterns=[d("d", "[a]*.map")])
        check_validate(acc, "globs|question", b[1:], run, patterns=[d("e", "deep", "?.map")])
        check_validate(acc, "globs|options after", a, run, patterns=[d("d", "*.map"), "--version", "8.2"])
        check_validate(acc, "globs|--expand", a, run, flags=["--expand"], patterns=[d("d", "*.map")])
        for lead in ("-v", "-q", "-vvv", "-qq"):
            check_validate(acc, "globs|" + lead, a, lambda x: cli(s, [lead] + x), patterns=[d("d", "*.map")])
        # relative names
        rel = [("one", "d/b one.map"), ("valid", "d/a valid.map")]
        check_validate(acc, "globs|relative", rel, run)
        # names which are not valid UTF-8
        raw = s.put(b"caf\xe9.map", dict(KINDS)["valid"])
        st, text = cli(s, ["validate", os.fsdecode(raw)])
        if st != 0:
            acc.fail("globs|file name in another encoding|valid", "exit status %s: %s" % (st, text))
        raw = s.put(b"caf\xe8.map", dict(KINDS)["two"])
        st, text = cli(s, ["validate", os.fsdecode(raw)])
        if st != 2:
            acc.fail("globs|file name in another encoding|two", "exit status %s: %s" % (st, text))
        acc.trans(2)


def schema_check(s, v, acc, sig, run):
    out = s.put("schéma.json", "x" * 10)
    if v == "big":
        v = None
        s.put("schéma.json", "x" * 3000000)
    st, text = run(["schema", out] + ([] if v is None else ["--version=%s" % v]))
    acc.trans(2)
    acc.trace()
    r = written(lambda: json.loads(s.get("schéma.json").decode("utf-8")))
    want = json.loads(json.dumps(plainj(impl.Validator().get_versioned_schema(v))))
    if st != 0 or r != ("ok", want):
        acc.fail(sig, "exit status %s; the file %s" % (st, "is not JSON" if r[0] != "ok" else "differs from get_versioned_schema" if r[1] != want else "is right"))
    acc.state((sig, json.dumps(want, sort_keys=True)))
    acc.outcome("schema")


def step_schema(v, acc):
    with Dir() as s:
        schema_check(s, v, acc, "schema|%s" % v, lambda a: cli(s, a))


# ---- real processes
def step_real(case, acc):
    kind, env, x = case
    with Dir() as s:
        run = lambda a: real(s, a, env)
        if kind == "format":
            which, o = x
            fns = world(s)
            fn = fns[which]
            if env == "c":  # ASCII names: the argument vector has no other characters there
                f2 = os.path.join(s.d, which.replace(" ", "_") + "-c.map")
                shutil.copy(fn, f2)
                fn = f2
                want = expected_format(s, fn, o, {})
                out = os.path.join(s.d, "out.map")
                st, _ = run(["format"] + format_args(o) + [fn, out])
                acc.trans(2)
                acc.trace()
                if want[0] == "ok" and (st != 0 or s.get(out) != want[1]) or want[0] != "ok" and st == 0:
                    acc.fail("real|format|%s|%s|%s" % (env, which, " ".join(map(ascii, o))), "exit status %s; expected %r" % (st, want[1][:500]))
            else:
                check_format(s, fn, o, acc, "real|format|%s|%s|%s" % (env, which, " ".join(map(ascii, o))), run, {})
        elif kind == "validate":
            fns = vworld(s)
            check_validate(acc, "real|validate|%s|%s" % (env, "+".join(x)), [(n, fns[n]) for n in x], run)
        elif kind == "count":
            f = s.put("n.map", n_errors(x))
            check_validate(acc, "real|count|%s|%d" % (env, x), [(("n", x), f)], run)
        elif kind == "schema":
            if env == "c":
                st, _ = run(["schema", "s.json"] + ([] if x is None else ["--version", str(x)]))
                acc.trans()
                want = json.loads(json.dumps(plainj(impl.Validator().get_versioned_schema(x))))
                if st != 0 or json.loads(s.get("s.json")) != want:
                    acc.fail("real|schema|c|%s" % x, "exit status %s" % st)
            else:
                schema_check(s, x, acc, "real|schema|%s|%s" % (env, x), run)
        elif kind == "none":
            st, text = run(["validate", os.path.join(s.d, "none*.map")])
            acc.trans()
            if st != 0:
                acc.fail("real|none", "exit status %s without any matched file" % st)
        elif kind == "api":
            # the API under this locale: every character class through save, open, load
            code = ("import sys, io, mappyfile as m\n"
                    "v = %s\n"
                    "d = m.loads('MAP END'); d['name'] = v\n"
                    "assert m.save(d, 'o.map')\n"
                    "t = m.dumps(d)\n"
                    "assert open('o.map', 'rb').read().decode('utf-8') == t, 1\n"
                    "assert m.open('o.map')['name'] == v, 2\n"
                    "assert m.load(open('o.map', encoding='utf-8', newline=''))['name'] == v, 3\n"
                    "assert m.loads(t)['name'] == v, 4\n"
                    "open('i.map', 'w').write(\"MAP INCLUDE \\'o.inc\\' END\".replace(\"INCLUDE\", \"\\nINCLUDE\").replace(\" END\", \"\\nEND\"))\n"
                    "l = m.loads('LAYER END'); l['name'] = v; m.save(l, 'o.inc')\n"
                    "assert m.open('i.map')['layers'][0]['name'] == v, 5\n") % ascii(x)
            e = {k: v for k, v in os.environ.items() if not k.startswith(("LC_", "LANG", "PYTHON", "MC_", "COV"))}
            e.update(LOCALES[env])
            e["PYTHONDONTWRITEBYTECODE"] = "1"
            e["PYTHONPATH"] = impl.REPO
            p = subprocess.run([PY, "-P", "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, timeout=150, cwd=s.d)
            acc.trans(6)
            acc.trace()
            if p.returncode != 0:
                acc.fail("real|api|%s|%s" % (env, ascii(x)), p.stderr.decode("utf-8", "replace")[-800:])
        acc.state(case)
    acc.outcome("real " + kind)


# ------------------------------------------------------------------ cases
def pack(xs, n):
    return [xs[i:i + n] for i in range(0, len(xs), n)]


def cases(tier):
    th = tier == "thorough"
    out = []
    core = O.core()
    texts = [(l, D.render(d)) for l, d in core]
    more = [(g + " " + l, D.render(d)) for g, (l, d) in space.documents("CEGKX" if th else "", th)] if th else []
    corp = []
    for n in space.corpus():
        try:
            with open(os.path.join(impl.REPO, n), encoding="utf-8", newline="") as f:
                corp.append(("corpus " + n, f.read()))
        except UnicodeDecodeError:
            pass
    com = [("commented %s" % l, "# top\n" + "\n".join("%s # %d é" % (x, i) for i, x in enumerate(t.split("\n"))) if "\n" in t and not any(q in t for q in "'\"") else t) for l, t in texts]
    com = [c for c in com if c[1].startswith("# top")]
    out += [("read", p) for p in pack(texts + com + more + corp, 12)]
    pub = [(n, t) for n, t in FILES if n not in ("crlf", "cr")] + texts[:: len(texts) // 20]
    out += [("readpub", (n, t)) for n, t in pub]
    out += [("write", [(l, t, SETS if th else SETS[i % 2::2]) for i, (l, t) in enumerate(p)]) for p in pack(texts + more, 6)]
    out += [("write", [(l, t, SETS[::5])]) for l, t in corp]
    full = O.product()
    for n, t in FILES if th else [FILES[0], FILES[3], FILES[7], FILES[8], FILES[9], FILES[11]]:
        for part in pack(full, 180):
            out.append(("write", [(n, t, part)]))
    out.append(("writebad", 0))
    for lo in range(0, 0x10000, 128):
        out.append(("points", (lo, lo + 128, True)))
    for lo in range(0x10000, 0x110000, 512):
        out.append(("points", (lo, lo + 512, th)))
    for n in (1, 2):
        out.append(("strings", ((), n)))
    for a in ALPHA:
        out.append(("strings", ((a,), 2)))
        if th:
            out += [("strings", ((a, b), 2)) for b in ALPHA]
    for size in (1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072) if th else (4096, 8192, 16384, 65536):
        out += [("boundary", (size, ch)) for ch in ("é", "€", "\U0001f600", "\r\n", "\\\\x")]
    out += [("ends", (v, q)) for v in ("\\", "C:\\data\\", "a\\\\") for q in '"\'']
    for p in pack(format_sets("all" if th else "main"), 40):
        out.append(("format", ("all", p)))
    for n, _ in FILES[1:] + BAD:
        out.append(("format", (n, format_sets("few"))))
    names = [n for n, _ in KINDS]
    tup = [(a,) for a in names] + list(itertools.product(names, repeat=2)) + list(itertools.product(names if th else names[:5], repeat=3))
    out += [("validate", p) for p in pack(tup, 8)]
    out += [("count", list(range(i, 301, 20))) for i in range(20)]
    out += [("split", (a, b)) for t in (255, 256, 257, 512) for a in (0, 1, 100, 128, 255, t) for b in (t - a,) if b >= 0]
    out += [("split", c) for c in ((85, 85, 85), (85, 85, 86), (1,) * 40, (0,) * 30, (64, 64, 64, 64), (256, 256, 0))]
    for v in [x for x in all_versions() if x is not None]:
        out.append(("versions", v))
        out.append(("schema", v))
    out += [("schema", None), ("schema", "big"), ("globs", 0)]
    impl.warm()
    for t in V.TYPES:
        out += [("faults", (t, i, p)) for i, p in enumerate(pack(fault_texts(t), 25))]
    rl = []
    for env in LOCALES:
        rl += [("format", env, (n, o)) for n, _ in FILES + BAD for o in [(None,) * 6, ("2", "\\t", "\\'", "\\r\\n", "--no-expand", "--comments")][:2 if th or n == "all" else 1] if env == "utf8" or n in ("all", "crlf", "astral", "encoding") or th]
        rl += [("validate", env, x) for x in [("valid",), ("syntax",), ("256",), ("one", "syntax", "255"), ("valid", "one"), ("syntax", "valid"), ("encoding",), ("missing", "valid"), ("symbolset", "valid")]]
        rl += [("count", env, n) for n in (0, 1, 2, 255, 256, 257, 300)[:7 if env == "utf8" or th else 0]]
        rl += [("schema", env, v) for v in ((None, 7.6, 5.0, 8.2) if env == "utf8" or th else (6.2,))]
        rl += [("api", env, v) for v in ("é", "\U0001f600", "a\u2028\x85b\ufeff", "\x00\x01\x1a\x1c\x1f", "日本\r\n語\r", "plain")]
    rl += [("none", "utf8", 0)]
    if th:
        rl += [("validate", "utf8", x) for x in itertools.product(names, repeat=2)]
        rl += [("count", "utf8", n) for n in range(3, 300)]
    out += [("real", x) for x in rl]
    for c, p in ((False, False), (True, True)):
        objs(c, p, True)
    for e in (True, False):
        impl.loads("MAP END", comments=True, expand=e)
    impl.pub.loads("MAP END", include_comments=True)
    import mappyfile.cli  # noqa: F401  (before the workers are forked)
    return out


def step(group, case, acc):
    globals()["step_" + group](case, acc)
