"""C12: calls are pure, history-independent and safe to run concurrently.

Three exhaustive explorations on the real code:
  purity      every document x every reading operation: a deep snapshot of the arguments before and after
  histories   every sequence of operations (with repetition, failing ones included) up to a depth on one
              Parser+MapfileToDict / PrettyPrinter / Validator and on the module-level functions; every answer is
              compared with the answer of a fresh process
  schedules   two and three threads calling the public functions under a controlled scheduler: every
              single preemption at every executed line, and all pairs of preemptions on a coarser grid
"""
from __future__ import annotations
import copy, io, itertools, os, pickle, shutil, signal, sys, tempfile, traceback
from . import impl, space, options as O, doc as D, vocab as V
from .sched import Run

PROP = "C12"
ASSUMPTIONS = ["scheduling points are the lines executed in mappyfile's own files (plus every bytecode in a sub-space); jsonschema, jsonref, lark and CPython's own operations are taken as atomic between them",
               "every schedule starts in a forked process in which mappyfile has been imported and nothing has been called"]
BOUNDS = {
    "quick": "purity: every core document and corpus file x 10 reading operations x comments+position on/off; histories: for each of 4 parser modes all sequences of 2 over 18 texts followed by a walk over all of them plus one walk containing every succession of 3, the same for 17 dictionaries x 4 printers (sequences of 3), "
             "15 (document, version) pairs on a validator, and all ordered pairs a,b,a of 34 calls of the module-level functions; schedules: 14 pairs of calls (both orders) x one preemption at each of up to 200 evenly spaced executed lines, 6 pairs also as first calls of the process (first execution of up to 60 distinct lines), two preemptions on an 8x8 grid, "
             "3 triples on a 5x5x5 grid, 16 threads round-robin with quanta 1, 7, 40",
    "thorough": "histories one call longer; schedules: 30 pairs, one preemption at every line (up to 4000) and at every bytecode (up to 4000), two preemptions on a 60x60 grid, three threads on a 24x24x24 grid, 16 threads with 12 quanta",
}
HEAVY = ("sched", "calls", "unshared", "parser", "parser-long", "printer", "printer-long", "validator", "validator-long")
CASE_LIMIT = 300.0
SLICES = 4  # cases of one schedule enumeration
LIMIT = {"quick": (200, 60), "thorough": (4000, 1000)}  # most preemption points of one enumeration (warm, cold); an even grid beyond


# ---------------------------------------------------------------- snapshots
def snap(x):
    if isinstance(x, dict):
        return (type(x).__name__, getattr(x, "default_factory", None).__class__.__name__, tuple((k, snap(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    return (type(x).__name__, repr(x))


def outcome(f):
    try:
        r = f()
    except impl.LarkError as e:
        return ("exc", type(e).__name__, getattr(e, "line", None), getattr(e, "column", None))
    except Exception as e:
        return ("exc", type(e).__name__, impl.exc_text(e))
    return ("ok", snap(r))


# ---------------------------------------------------------------- alphabets
TEXTS = [
    "MAP NAME 'a' END",
    "# top\nMAP # one\n  NAME 'a' # two\n  /* three */\n  LAYER # four\n    TYPE POINT # five\n  END # six\nEND # seven",
    "MAP\n\n\n# late\nNAME 'b'\nEND",
    "MAP NAME 'unterminated END",
    "# c1\nMAP # c2\nNAME 'a' # c3\nTYPE ) END",
    "MAP\n# c1\n# c2\nNAME 'a'\nLAYER",
    "FEATURE POINTS END END # c",
    "# c\nFEATURE # d\nPOINTS 1 2 END END",
    "CLASS EXPRESSION ([a] = 1 AND /* x */ NOT ([b] || 2 = 3)) # e\nEND",
    "LAYER # l\nMETADATA # m\n'a' 'b' # n\n# o\n'c' 'd'\nEND VALIDATION 'x' 'y' # p\nEND END",
    "SYMBOLSET SYMBOL NAME 's' TYPE ELLIPSE FILLED TRUE END END",
    "CLASS NAME 'x' END CLASS NAME 'y' # z\nEND",
    "STYLE PATTERN 1 2 3 4 END COLOR '#ff0000' END",
    "LAYER PROCESSING 'A=1' # p1\nPROCESSING 'B=2' # p2\nCONFIG 'x' 'y' END",
    "MAP INCLUDE 'nothing.map' END",
    "MAP\nINCLUDE 'nothing-there.map'\nEND",
    "MAP PROJECTION # p\n'init=epsg:1' # q\nEND END",
    "",
    "MAP # c1\nNAME 'a' # c2\nSIZE 1e999 2 # c3\nEND",
    "LAYER # deep\nFILTER " + "(" * 120 + "[a]" + ")" * 120 + " # end\nEND",
]
MODES = [(False, False), (True, False), (False, True), (True, True)]
DICTS = [
    "MAP NAME 'a' LAYER TYPE POINT NAME 'l' END END", "CLASS NAME 'x' END CLASS NAME 'y' END", "LAYER METADATA 'a' 'b' 'longer' 'c' END VALIDATION 'x' 'y' END END", "STYLE PATTERN 1 2 END COLOR 1 2 3 END",
    "MAP CONFIG 'a' 'b' CONFIG 'longer_key' 'd' NAME 'n' END", "LAYER PROCESSING 'A' PROCESSING 'B' TYPE LINE END", "CLASS EXPRESSION ([a] = 1) TEXT 'x' MINSCALEDENOM 1 END", "SYMBOLSET SYMBOL NAME 's' POINTS 1 1 2 2 END END END",
    "LAYER PROJECTION AUTO END END", "# c\nMAP # d\nNAME 'a' # e\nLAYER # f\nEND END", "WEB METADATA 'wms_title' 'x' END END", "METADATA 'a' 'b' END", "LABEL OFFSET [a] [b] STYLE END SIZE 4 END", "QUERYMAP STYLE HILITE END",
]
# dictionaries that can't be printed: the failure comes at once, after some lines, inside a nested block, in the second of two roots, in each kind of block
BADDICTS = [{"__type__": "map", "size": {}}, {"__type__": "layer", "name": float("nan")}, {"name": "x"},
            [{"__type__": "style", "size": 3}, {"__type__": "class", "name": None}], {"__type__": "map", "name": "n", "layers": [{"__type__": "layer", "type": "point", "classes": [{"__type__": "class", "longest_of_all": 1, "name": {}}]}]},
            {"__type__": "layer", "__comments__": {"__type__": ["# c"]}, "name": "n", "metadata": {"__type__": "metadata", "__comments__": {"a": ["# d"]}, "a": "b", "c": None}},
            {"__type__": "style", "pattern": [[1, 2], [3]]}, {"__type__": "map", "web": {"__type__": "web", "nothing": None}, "projection": ["a", {}]}]
PRINTERS = [{}, {"align_values": True, "end_comment": True}, {"indent": 2, "quote": "'", "newlinechar": "\r\n"}, {"indent": 0, "align_values": True}]
VDOCS = [(0, None), (0, 7.6), (0, 6.0), (2, None), (2, 8.0), (6, 5.0), (6, None), (9, 7.0), (1, 8.2), (12, 6.0), (12, None), (10, 7.6)]
VBAD = ["LAYER TYPE POINT NAME 5 END", "STYLE COLOR 300 1 1 OPACITY 'x' END", "MAP SIZE 1 2 IMAGETYPE 'x' UNITS 'y' EXTENT 1 2 3 4 LAYER TYPE 'z' END END"]
VRAISE = [({"__type__": "nonsense"}, None), ({"name": "x"}, 7.6), (None, None), ({"__type__": "map", "layers": [3]}, 6.0), ([{"__type__": "class", "name": 5}, {"__type__": "nonsense"}], 7.0)]


def dicts():
    """fresh dictionaries of the alphabet (no implementation state shared between calls)"""
    out = [impl.loads(t, comments=t.startswith("#"), position=t.startswith(("#", "WEB"))) for t in DICTS]
    return out + copy.deepcopy(BADDICTS)


def mkdoc(i):
    p = impl.Parser(include_comments=DICTS[i].startswith("#"))
    return impl.MapfileToDict(include_comments=DICTS[i].startswith("#"), include_position=DICTS[i].startswith(("#", "WEB"))).transform(p.parse(DICTS[i]))


# ---------------------------------------------------------------- running in a pristine process
def forked(f, timeout=120):
    """value of f() computed in a forked child of this (unused) process"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(timeout)
            os.close(r)
            with os.fdopen(w, "wb") as fp:
                try:
                    fp.write(pickle.dumps(("ok", f())))
                except BaseException:
                    fp.write(pickle.dumps(("exc", traceback.format_exc(limit=-6))))
        except BaseException:
            code = 1
        os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fp:
            data = fp.read()
        os.waitpid(pid, 0)
    except BaseException:
        try:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
        except OSError:
            pass
        raise
    if not data:
        return ("exc", "the process did not answer within %d s" % timeout)
    return pickle.loads(data)


# ---------------------------------------------------------------- module-level calls (name -> function of the shared dictionaries)
def loads_op(i, c, p):
    return lambda S: impl.pub.loads(TEXTS[i], include_comments=c, include_position=p)


def finders(S):
    m = S["map"]
    return [impl.pub.find(m["layers"], "name", "l2"), impl.pub.findall(m["layers"], "group", "g"), impl.pub.findall(m["layers"], "group", ["g", "h"]), impl.pub.findunique(m["layers"], "GROUP"), impl.pub.findkey(m, "layers", 1, "name")]


def fp_dump(S, k, **o):
    f = io.StringIO()
    impl.pub.dump(S[k], f, **o)
    return f.getvalue()


def fp_save(S, k, **o):
    d = tempfile.mkdtemp(prefix="c12-")
    try:
        fn = os.path.join(d, "x.map")
        impl.pub.save(S[k], fn, **o)
        return open(fn, encoding="utf-8", newline="").read()
    finally:
        shutil.rmtree(d)


MAPTEXT = """# head
MAP # m
  NAME 'shared' # n
  CONFIG 'a' 'b'
  LAYER NAME 'l1' GROUP 'g' TYPE POINT CLASS EXPRESSION ([a] = 1) STYLE COLOR 1 2 3 END END END
  LAYER NAME 'l2' GROUP 'h' TYPE LINE METADATA 'k' 'v' END END # x
  LAYER NAME 'l3' TYPE POLYGON PROCESSING 'A=1' END
END"""


def shared():
    """the dictionaries the threads share, made by objects of this process only"""
    p = impl.Parser(include_comments=True)
    m = impl.MapfileToDict(include_comments=True, include_position=True).transform(p.parse(MAPTEXT))
    q = impl.Parser()
    t = impl.MapfileToDict()
    return {"map": m, "style": t.transform(q.parse("STYLE COLOR 300 1 1 PATTERN 1 2 END OPACITY 50 END")), "layer": t.transform(q.parse("LAYER TYPE POINT METADATA 'a' 'b' END PROCESSING 'x' CLASS NAME 'c' END END")),
            "two": t.transform(q.parse("CLASS NAME 'x' SYMBOL 'y' END STYLE SIZE [a] END")), "leader": t.transform(q.parse("LEADER GRIDSTEP 'x' STYLE COLOR 1 2 END END")), "bad": {"__type__": "map", "size": {}}}


OPS = {
    "loads-comments": loads_op(1, True, True), "loads-late": loads_op(2, True, False), "loads-plain": loads_op(8, False, False), "loads-position": loads_op(9, False, True), "loads-metadata": loads_op(9, True, False),
    "loads-fail": loads_op(4, True, False), "loads-fail2": loads_op(3, False, False), "loads-fail3": loads_op(6, True, True), "loads-two": loads_op(11, True, False), "loads-symbolset": loads_op(10, False, False), "loads-missing": loads_op(15, True, False),
    "loads-processing": loads_op(13, True, True), "load-fp": lambda S: impl.pub.load(io.StringIO(TEXTS[1]), include_comments=True), "loads-raw": lambda S: impl.pub.loads("MAP\nINCLUDE 'x'\nEND", expand_includes=False),
    "dumps-map": lambda S: impl.pub.dumps(S["map"]), "dumps-aligned": lambda S: impl.pub.dumps(S["map"], align_values=True, end_comment=True, indent=3), "dumps-style": lambda S: impl.pub.dumps(S["style"], quote="'"),
    "dumps-layer": lambda S: impl.pub.dumps(S["layer"], newlinechar="\r\n", indent=0), "dumps-two": lambda S: impl.pub.dumps(S["two"]), "dumps-bad": lambda S: impl.pub.dumps(S["bad"]), "dump-fp": lambda S: fp_dump(S, "layer", spacer="\t", indent=1),
    "save": lambda S: fp_save(S, "map", align_values=True), "validate-map": lambda S: impl.pub.validate(S["map"]), "validate-style": lambda S: impl.pub.validate(S["style"]), "validate-leader-6": lambda S: impl.pub.validate(S["leader"], version=6.0),
    "validate-leader-8": lambda S: impl.pub.validate(S["leader"], version=8.0), "validate-leader": lambda S: impl.pub.validate(S["leader"]), "validate-map-6": lambda S: impl.pub.validate(S["map"], version=6.0),
    "validate-style-5": lambda S: impl.pub.validate(S["style"], version=5.0), "validate-two": lambda S: impl.pub.validate(S["two"]), "find": finders, "findkey-missing": lambda S: impl.pub.findkey(S["layer"], "scaletokens"),
    "create": lambda S: impl.pub.create("style", 7.0), "create-old": lambda S: impl.pub.create("style", 5.0),
}
NAMES = sorted(OPS)
COLD = {}


def cold(name):
    """the answer of a fresh process"""
    if name not in COLD:
        def f():
            S = shared()
            a = {k: snap(v) for k, v in S.items()}
            r = outcome(lambda: OPS[name](S))
            return r, sorted(k for k in S if snap(S[k]) != a[k])
        COLD[name] = forked(f)
    return COLD[name]


# ---------------------------------------------------------------- schedules
PAIRS_QUICK = [("loads-comments", "loads-late"), ("loads-comments", "loads-fail"), ("loads-metadata", "loads-comments"), ("loads-plain", "loads-position"), ("dumps-aligned", "dumps-aligned"), ("dumps-map", "dumps-aligned"), ("dumps-style", "dumps-layer"),
               ("loads-comments", "dumps-aligned"), ("validate-style", "validate-style"), ("validate-leader-6", "validate-leader-8"), ("validate-leader-6", "validate-leader"), ("validate-style", "dumps-map"), ("loads-comments", "validate-map"), ("find", "dumps-map")]
PAIRS_MORE = [("loads-comments", "loads-comments"), ("loads-fail3", "loads-comments"), ("loads-symbolset", "loads-plain"), ("loads-two", "loads-metadata"), ("dumps-two", "dumps-map"), ("dumps-bad", "dumps-map"), ("save", "save"), ("save", "dumps-layer"), ("validate-map", "validate-map"),
              ("validate-two", "validate-leader"), ("loads-position", "validate-leader-6"), ("find", "validate-map"), ("load-fp", "dump-fp"), ("create", "validate-leader-8"), ("create", "create-old"), ("findkey-missing", "dumps-layer")]
PAIRS_COLD = [("loads-comments", "loads-late"), ("loads-metadata", "loads-comments"), ("dumps-aligned", "dumps-aligned"), ("validate-style", "validate-style"), ("validate-leader-6", "validate-leader-8"), ("loads-comments", "validate-map")]
TRIPLES = [("loads-comments", "dumps-aligned", "validate-style"), ("loads-comments", "loads-late", "loads-metadata"), ("dumps-map", "dumps-aligned", "dumps-style")]

SIXTEEN = [["loads-comments", "dumps-aligned", "validate-style", "loads-late", "find", "dumps-style", "loads-metadata", "validate-leader-8"] * 2, ["loads-fail", "loads-comments", "loads-two", "loads-plain"] * 4,
           ["dumps-map", "dumps-aligned", "dumps-layer", "validate-leader-6"] * 4]


def inside(fn):
    return fn.startswith(PKG)


PKG = os.path.join(os.path.realpath(impl.REPO), "mappyfile") + os.sep


_sh = []


def sh():
    """the shared dictionaries, pickled in a child: this process has called nothing"""
    if not _sh:
        r = forked(lambda: pickle.dumps(shared()))
        if r[0] != "ok":
            raise RuntimeError(r[1])
        _sh.append(r[1])
    return pickle.loads(_sh[0])


def run_schedule(names, segs, opcodes=False, record=False):
    """in a child: results, unchanged inputs?, points"""
    S = sh()
    a = {k: snap(v) for k, v in S.items()}
    R = Run([lambda n=n: OPS[n](S) for n in names], segs, inside, opcodes, record)
    R.run()
    res = []
    for r in R.results:
        def back(r=r):
            if r[0] == "ok":
                return r[1]
            raise r[1]
        res.append(outcome(back))
    if record:
        return res, None, list(R.points), R.stuck, R.where
    return res, sorted(k for k in S if snap(S[k]) != a[k]), list(R.points), R.stuck


def cases(tier):
    th = tier == "thorough"
    out = []
    pairs = PAIRS_QUICK + (PAIRS_MORE if th else [])
    for p in pairs:
        for q in ([p] if p[0] == p[1] else [p, p[::-1]]):
            out += [("sched", ("one", q, i, LIMIT[tier])) for i in range(SLICES)]
            if p in PAIRS_COLD or th:
                out += [("sched", ("cold", q, i, LIMIT[tier])) for i in range(SLICES)]
            if th:
                out += [("sched", ("op", q, i, LIMIT[tier])) for i in range(SLICES)]
        g = 8 if not th else 60
        out += [("sched", ("two", p, i, g)) for i in range(0, g, 4)]
    for tr in TRIPLES:
        g = 5 if not th else 24
        out += [("sched", ("three", tr, i, g)) for i in range(g)]
    for i, q in enumerate((1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233) if th else (1, 7, 40)):
        out += [("sched", ("round", tuple(w), q, 0)) for w in SIXTEEN[:3 if th else 1 + (i == 2)]]
    for m in MODES:
        for a in range(len(TEXTS)):
            out.append(("parser", (m, a, 3 if not th else 4)))
        out.append(("parser-long", (m, 3)))
    for i in range(len(PRINTERS)):
        for a in range(len(DICTS) + len(BADDICTS)):
            out.append(("printer", (i, a, 2 if not th else 3)))
        out.append(("printer-long", (i, 3)))
    for a in range(len(VDOCS) + len(VBAD) + len(VRAISE)):
        out.append(("validator", (a, 2 if not th else 3)))
    out.append(("validator-long", 2))
    for a in NAMES:
        out.append(("calls", a))
    for lab, d in O.core():
        out.append(("pure", ("doc", lab, D.render(d))))
    for f in space.corpus():
        out.append(("pure", ("file", f, None)))
    n = len(bulk(th))
    for i in range(0, n, 50):
        out.append(("bulk", (i, min(i + 50, n), th)))
    out += [("unshared", n) for n in NAMES + [""]]
    for n in range(6):
        out.append(("finders", n))
    # lark writes its grammar cache once (in a child: this process stays unused)
    forked(lambda: [impl.pub.loads(TEXTS[1], include_comments=c) and None for c in (False, True)])
    return out


def de_bruijn(k, n):
    """all successions of n of k letters on one walk"""
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def compare(acc, sig, got, want, what):
    if got != want:
        acc.fail(sig, "%s: got %s, a fresh one gives %s" % (what, str(got)[:700], str(want)[:700]))
        return False
    return True


def step(group, case, acc):
    if group == "sched":
        schedules(case, acc)
    elif group in ("parser", "parser-long", "printer", "printer-long", "validator", "validator-long"):
        r = forked(lambda: history(group, case), 280)
        take(r, acc, group, case)
    elif group == "bulk":
        bulk_pure(case, acc)
    elif group == "calls":
        calls(case, acc)
    elif group == "pure":
        pure(case, acc)
    elif group == "unshared":
        unshared(case, acc)
    elif group == "finders":
        find_pure(case, acc)


def take(r, acc, group, case):
    if r[0] != "ok":
        acc.fail("child|%s|%r" % (group, case), r[1])
        return
    bad, n, states = r[1]
    acc.trans(n)
    acc.trace(n)
    for s in states:
        acc.state(s)
    for sig, msg in bad[:5]:
        acc.fail(sig, msg)


# ---------------------------------------------------------------- histories on the four worker objects
def history(group, case):
    """runs in a forked child; [(sig, message)], executed operations, distinct answers"""
    bad, n, states = [], 0, set()

    def diff(kind, path, got, want):
        states.add(repr(got)[:2000])
        if got != want:
            bad.append(("%s|%s" % (kind, path), "after this history: %s; on fresh objects: %s" % (str(got)[:900], str(want)[:900])))

    if group.startswith("parser"):
        (c, p) = case[0]

        def one(P, M, i):
            return outcome(lambda: M.transform(P.parse(TEXTS[i])))

        def fresh():
            return impl.Parser(include_comments=c), impl.MapfileToDict(include_position=p, include_comments=c)

        want = [one(*fresh(), i) for i in range(len(TEXTS))]
        if group == "parser-long":
            P, M = fresh()
            seq = de_bruijn(len(TEXTS), case[1])
            for k, i in enumerate(seq):
                n += 1
                diff("parser%r" % (case[0],), seq[max(0, k - 2):k + 1], one(P, M, i), want[i])
                if bad:
                    break
        else:
            a, depth = case[1], case[2]
            for rest in itertools.product(range(len(TEXTS)), repeat=1 if depth == 3 else 2):
                P, M = fresh()
                h = [a] + list(rest)
                for i in h:
                    one(P, M, i)
                    n += 1
                # every last call on a copy is not possible: the walk continues and stays comparable
                for i in range(len(TEXTS)):
                    n += 1
                    h.append(i)
                    diff("parser%r" % (case[0],), h[-4:], one(P, M, i), want[i])
    elif group.startswith("printer"):
        o = PRINTERS[case[0]]
        ds = dicts()
        before = [snap(d) for d in ds]

        def one(pp, i):
            return outcome(lambda: pp.pprint(ds[i]))
        want = [one(impl.PrettyPrinter(**o), i) for i in range(len(ds))]
        if group == "printer-long":
            pp = impl.PrettyPrinter(**o)
            seq = de_bruijn(len(ds), case[1])
            for k, i in enumerate(seq):
                n += 1
                diff("printer%r" % (o,), seq[max(0, k - 2):k + 1], one(pp, i), want[i])
        else:
            for rest in itertools.product(range(len(ds)), repeat=case[2]):
                pp = impl.PrettyPrinter(**o)
                h = (case[1],) + rest
                for j, i in enumerate(h):
                    n += 1
                    diff("printer%r" % (o,), list(h[:j + 1]), one(pp, i), want[i])
        for i, d in enumerate(ds):
            if snap(d) != before[i]:
                bad.append(("printer%r|modified %d" % (o, i), "pprint changed the dictionary"))
    else:
        ds = dicts()
        q = [(ds[i], v) for i, v in VDOCS] + [(impl.loads(t), None) for t in VBAD] + copy.deepcopy(VRAISE)
        before = [snap(d) for d, v in q]

        def one(val, i):
            return outcome(lambda: val.validate(q[i][0], version=q[i][1]))
        want = [one(impl.Validator(), i) for i in range(len(q))]
        if group == "validator-long":
            val = impl.Validator()
            seq = de_bruijn(len(q), case)
            for k, i in enumerate(seq):
                n += 1
                diff("validator", seq[max(0, k - 1):k + 1], one(val, i), want[i])
        else:
            for rest in itertools.product(range(len(q)), repeat=case[1] - 1):
                val = impl.Validator()
                h = (case[0],) + rest
                for j, i in enumerate(h):
                    n += 1
                    diff("validator", list(h[:j + 1]), one(val, i), want[i])
                for i in range(len(q)):
                    n += 1
                    diff("validator", list(h) + [i], one(val, i), want[i])
        for i, (d, v) in enumerate(q):
            if snap(d) != before[i]:
                bad.append(("validator|modified %d" % i, "validate changed the dictionary"))
    return bad, n, states


def calls(a, acc):
    """module-level functions: a, then every other call, then a again; and an unrelated third"""
    wa = cold(a)
    if wa[0] != "ok":
        acc.fail("call|" + a, wa[1])
        return
    if wa[1][1]:
        acc.fail("modifies|%s" % a, "%s changed its arguments %r" % (a, wa[1][1]))

    def f():
        out = []
        S = shared()
        for b in NAMES:
            x = outcome(lambda: OPS[a](S))
            y = outcome(lambda: OPS[b](S))
            z = outcome(lambda: OPS[a](S))
            out.append((b, x, y, z))
        return out
    r = forked(f, 280)
    if r[0] != "ok":
        acc.fail("call|" + a, r[1])
        return
    for b, x, y, z in r[1]:
        acc.trans(3)
        acc.trace()
        acc.state((a, b, x))
        w = cold(b)
        compare(acc, "calls|%s,%s" % (a, b), y, w[1][0], "%s after %s" % (b, a))
        compare(acc, "calls|%s,%s,%s" % (a, b, a), z, wa[1][0], "%s after %s" % (a, b))
        compare(acc, "calls|..,%s" % a, x, wa[1][0], "%s after the calls before %s" % (a, b))
    acc.sample("%s; %s; %s" % (a, NAMES[0], a))


# ---------------------------------------------------------------- purity
def pure(case, acc):
    kind, lab, text = case
    if kind == "file":
        text = open(os.path.join(impl.REPO, lab), encoding="utf-8", errors="replace").read()
    for cm in (False, True):
        if cm and impl.has_include(text):
            continue
        r = impl.attempt(impl.loads_auto, text, comments=cm, position=cm)
        if r[0] != "ok":
            acc.outcome("not loadable")
            return
        d = r[1]
        a = snap(d)
        acc.state(a)
        for name, f in READERS:
            impl.attempt(f, d)
            acc.trans()
            b = snap(d)
            if a != b:
                acc.fail("pure|%s|%s" % (name, lab), "%s changed the dictionary" % name, before=str(a)[:1500], after=str(b)[:1500])
                d = impl.loads_auto(text, comments=cm, position=cm)
                a = snap(d)
        acc.trace()
        # the text again: the same dictionary, and nothing shared with the first one
        e = impl.loads_auto(text, comments=cm, position=cm)
        acc.trans()
        compare(acc, "again|%s" % lab, snap(e), a, "the same text loaded again")
        ids = set()
        containers(d, ids)
        if ids & containers(e, set()):
            acc.fail("shared|%s" % lab, "two results of loads share a container")


_bulk = {}


def bulk(thorough):
    """documents with every value shape in every slot"""
    if thorough not in _bulk:
        docs = [("auto %s %s" % (t, w), None) for t in ("layer", "map") for w in ("auto", "Auto", "AUTO")]
        _bulk[thorough] = docs + [x for g, x in space.documents("ABEFGX" + ("CDK" if thorough else ""), False)]
    return _bulk[thorough]


def bulk_pure(case, acc):
    for lab, doc in bulk(case[2])[case[0]:case[1]]:
        text = "%s PROJECTION %s END END" % tuple(lab.split()[1:]) if lab.startswith("auto ") else D.render(doc)
        r = impl.attempt(impl.loads, text)
        if r[0] != "ok":
            continue
        d = r[1]
        a = snap(d)
        acc.state(a)
        for name, f in READERS[:2] + READERS[5:6]:
            impl.attempt(f, d)
            acc.trans()
        acc.trace()
        if snap(d) != a:
            pure(("doc", lab, text), acc)
            acc.fail("bulk|" + lab, "dumps or validate changed the dictionary", text=text, before=str(a)[:1500], after=str(snap(d))[:1500])


def containers(x, out):
    if isinstance(x, dict):
        out.add(id(x))
        for v in x.values():
            containers(v, out)
    elif isinstance(x, list):
        out.add(id(x))
        for v in x:
            containers(v, out)
    return out


def every_list(d, f):
    objs = d if isinstance(d, list) else [d]
    todo = list(objs)
    f(objs)
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            for k, v in list(x.items()):
                if isinstance(v, list) and v and all(isinstance(i, dict) for i in v):
                    f(v)
                if isinstance(v, (dict, list)):
                    todo.append(v)
        elif isinstance(x, list):
            todo += [v for v in x if isinstance(v, (dict, list))]


def finding(lst):
    for k in ("name", "NAME", "classes", "layers", "styles", "metadata", "points", "symbol", "missing", "group"):
        impl.attempt(impl.pub.find, lst, k, "x")
        impl.attempt(impl.pub.find, lst, k, [])
        impl.attempt(impl.pub.findall, lst, k, ["x", "y"])
        impl.attempt(impl.pub.findall, lst, k, "x")
        impl.attempt(impl.pub.findunique, lst, k)


def paths(d):
    for o in d if isinstance(d, list) else [d]:
        for p in (["layers"], ["layers", 0], ["layers", 0, "classes", 0, "styles"], ["web", "metadata", "x"], ["metadata"], ["NAME"], ["missing"], ["classes"], ["styles", 0, "color"], ["points", 0], ["symbols"], ["validation", "a"], []):
            impl.attempt(impl.pub.findkey, o, *p)


READERS = [("dumps", lambda d: impl.dumps(d)), ("dumps aligned", lambda d: impl.dumps(d, align_values=True, end_comment=True, indent=2, quote="'")), ("dumps newline", lambda d: impl.dumps(d, newlinechar=" ", indent=0)),
           ("public dumps", lambda d: impl.pub.dumps(d)), ("public dump", lambda d: impl.pub.dump(d, io.StringIO(), align_values=True)), ("validate", lambda d: impl.validate(d)), ("validate 5.0", lambda d: impl.validate(d, version=5.0)),
           ("public validate", lambda d: impl.pub.validate(d)), ("find", lambda d: every_list(d, finding)), ("findkey", paths)]


def find_pure(n, acc):
    """find* on plain and Mapfile dictionaries, with values that are themselves mutable"""
    lists = [[{"name": "a"}, {"name": "b", "x": [1]}], [{}], [], [{"name": ["a"]}, {"name": {"k": 1}}], [impl.loads("LAYER NAME 'x' END"), impl.loads("LAYER END")], [impl.loads("CLASS STYLE END END"), {"name": None}]]
    lst = lists[n]
    a = snap(lst)
    vals = [["a"], ["a", "b"], "a", None, [], {"k": 1}, ("a",), 1]
    for k in ("name", "NAME", "x", "styles", "layers"):
        for v in vals:
            va = snap(v)
            for f in (impl.pub.find, impl.pub.findall):
                impl.attempt(f, lst, k, v)
                acc.trans()
                if snap(lst) != a or snap(v) != va:
                    acc.fail("finders|%d|%s|%r" % (n, k, v), "%s changed its arguments" % f.__name__)
                    return
        impl.attempt(impl.pub.findunique, lst, k)
        for d in lst:
            impl.attempt(impl.pub.findkey, d, k)
            impl.attempt(impl.pub.findkey, d, k, 0, "y")
        if snap(lst) != a:
            acc.fail("finders|%d|%s" % (n, k), "changed the list")
            return
    acc.trace()
    acc.state(a)


def unshared(only, acc):
    """results belong to the caller: changing one does not change the next one"""
    for name in [only] if only else []:
        w = cold(name)

        def f():
            S = shared()
            r = impl.attempt(OPS[name], S)
            if r[0] == "ok":
                wreck(r[1])
            S = shared()
            return outcome(lambda: OPS[name](S))
        g = forked(f)
        acc.trans(2)
        acc.trace()
        if g[0] != "ok":
            acc.fail("unshared|" + name, g[1])
        else:
            compare(acc, "unshared|" + name, g[1], w[1][0], "%s after its first result was modified" % name)
    if only:
        return
    # validators, printers and parsers of the caller
    def v():
        val = impl.Validator()
        s = val.get_versioned_schema(7.6, "map")
        d = mkdoc(0)
        a = outcome(lambda: impl.pub.validate(d, version=6.0))
        b = outcome(lambda: impl.pub.validate(d))
        return a, b

    def v2():
        d = mkdoc(0)
        return outcome(lambda: impl.pub.validate(d, version=6.0)), outcome(lambda: impl.pub.validate(d))
    x, y = forked(v), forked(v2)
    compare(acc, "unshared|validators", x, y, "validate after the use of another Validator")


def wreck(x, depth=0):
    if isinstance(x, dict):
        for v in list(x.values()):
            wreck(v, depth + 1)
        x.clear()
        x["wrecked"] = "yes"
    elif isinstance(x, list):
        for v in x:
            wreck(v, depth + 1)
        x.append("wrecked")


# ---------------------------------------------------------------- schedules
def schedules(case, acc):
    kind, names, part, limit = case
    want = []
    for n in names:
        w = cold(n)
        if w[0] != "ok":
            acc.fail("call|" + n, w[1])
            return
        want.append(w[1][0])
    sig = "schedule|%s" % "|".join(names[:3])
    op = kind == "op"
    base = points(names, op, kind != "cold") if kind != "round" else None
    if isinstance(base, str):
        acc.fail(sig, "the calls do not finish one after the other under the scheduler: " + base)
        return
    todo = plan(kind, base, part, limit)

    def look(r, segs):
        """None or the disagreement"""
        if r[1]:
            return "|changed", "preempted as %s: changed %r" % (segs[:20], r[1])
        for n, g, w in zip(names, r[0], want):
            if g != w:
                return "", "threads preempted as %s: %s returned %s, alone it returns %s" % (segs[:20], n, str(g)[:600], str(w)[:600])

    def many():
        run_schedule(names, [], op)
        ends, stuck = [], 0
        for segs in todo:
            r = run_schedule(names, segs, op)
            stuck += bool(r[3])
            ends.append(tuple(r[2]))
            x = look(r, segs)
            if x:
                return ends, stuck, (x, segs)
        return ends, stuck, None

    def note(segs):
        acc.trans(len(names))
        acc.trace()
        acc.state((kind, names, tuple(segs[:200])))

    if kind != "cold":
        sh()
        r = forked(many, 280)
        if r[0] != "ok":
            acc.fail(sig, r[1])
            return
        ends, stuck, x = r[1]
        for segs in todo[:len(ends)]:
            note(segs)
        if x:
            acc.fail(sig + x[0][0], x[0][1], segments=[list(s) for s in x[1][:200]])
    else:
        stuck = 0
        for segs in todo:
            r = forked(lambda: run_schedule(names, segs), 60)
            note(segs)
            if r[0] != "ok":
                acc.fail(sig, "%s: %s" % (segs, r[1]))
                break
            stuck += bool(r[1][3])
            x = look(r[1], segs)
            if x:
                acc.fail(sig + x[0], "first calls of the process, " + x[1], segments=[list(s) for s in segs])
                break
    if stuck:
        acc.outcome("a thread had to wait for a lock")
    if todo:
        acc.sample("%s: %s %s" % (kind, " || ".join(names), todo[-1][:6]))


_points = {}


def points(names, opcodes, warm):
    """per thread, the points of the sequential run: the count (warm), or the first point at every line of code (cold)"""
    k = (names, opcodes, warm)
    if k not in _points:
        sh()

        def f():
            if warm:
                run_schedule(names, [], opcodes)
                return run_schedule(names, [], opcodes)[2]
            r = run_schedule(names, [], False, True)
            out = []
            for w in r[4]:
                seen = {}
                for i, loc in enumerate(w):
                    seen.setdefault(loc, i + 1)
                out.append(sorted(seen.values()))
            return out
        r = forked(f, 60)
        _points[k] = r[1]
    return _points[k]


def grid(n, most):
    return list(range(1, n + 1)) if n <= most else sorted({1 + i * (n - 1) // (most - 1) for i in range(most)})


FOREVER = 10 ** 9


def plan(kind, base, part, limit):
    if kind in ("one", "op"):
        return [[(0, k), (1, FOREVER)] for k in grid(base[0], limit[0])[part::SLICES]]
    if kind == "cold":
        ks = base[0]
        return [[(0, ks[i - 1]), (1, FOREVER)] for i in grid(len(ks), limit[1])[part::SLICES]]
    g = limit

    def at(t, i):
        return max(1, base[t] * (i + 1) // (g + 1))
    if kind == "two":
        return [[(0, at(0, i)), (1, at(1, j)), (0, FOREVER)] for i in range(part, min(g, part + 4)) for j in range(g)]
    if kind == "three":
        return [[(0, at(0, part)), (1, at(1, j)), (2, at(2, l)), (0, FOREVER)] for j in range(g) for l in range(g)]
    # round robin: every thread runs `part` points in turn
    return [RoundRobin(part, 16)]


class RoundRobin(list):
    def __init__(self, q, n):
        super().__init__((t, q) for _ in range(3000 // q + 1) for t in range(n))
