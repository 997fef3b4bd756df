"""C04: formatting formatted text changes nothing; the same dictionary and options always give the same text."""
from __future__ import annotations
import hashlib, json, os, subprocess, sys
from . import impl, space, options as O, doc as D, roundtrip as R, raw

PROP = "C04"
FEW = [(4, " ", '"', "\n", False, False, False), (2, "\t", "'", "\n", True, True, True), (0, " ", "'", " ", False, False, False), (3, " ", '"', "\r\n", True, True, False)]
BOUNDS = {"quick": "720 option sets x ~200 core documents and 80 sets x ~410 (mc/options.py); 4 option sets x document groups A-G, X of mc/space.py; corpus files x 4 option sets; every accepted sequence of two raw tokens in 27 contexts (mc/raw.py) x 4 sets; "
                   "3 child processes with different hash seeds print all core documents",
          "thorough": "as quick with all value samples and larger bounds; 720 option sets x all core documents; corpus files x 80 option sets; 8 hash seeds"}
ASSUMPTIONS = ["texts which loads does not accept are C01's concern", "the printers of one worker process share one Validator (its schema cache)"]
HEAVY = ("corpus", "hash", "core")
CASE_LIMIT = 300.0
SEEDS = {"quick": (1, 2, 77), "thorough": (1, 2, 3, 4, 5, 77, 1000, 4294967295)}


def cases(tier):
    th = tier == "thorough"
    out = [("core", c + ("FULL" if th or not c[0].startswith(("slot", "mix", "kitchen")) or c[0].startswith("kitchen") and ("#0" in c[0] or "#1" in c[0]) else "SMALL",)) for c in O.core()]
    out += [("hash", s) for s in SEEDS[tier]]
    docs = space.documents("ABCDEFGX", th)
    out += docs + space.public_subspace(docs)
    for f in space.corpus():
        out.append(("corpus", (f, "SMALL" if th else "FEW")))
    out += raw.cases(1 if th else 0)
    impl.warm()
    return out


def same(text, sets, lab, acc, prn, loads, fresh=None):
    r = impl.attempt(loads, text)
    acc.trans()
    if r[0] != "ok" or R.unknown_keywords(r[1]):
        acc.outcome("not accepted by loads" if r[0] != "ok" else "keywords unknown to the schema")
        return
    n0, done = len(acc.viol), set()
    for o in sets:
        if len(acc.viol) >= n0 + 3:
            break
        if O.has_quote(r[1], o[2]):
            acc.outcome("option set whose quote occurs unescaped in a string")
            continue
        d = impl.attempt(loads, text)[1] if o[6] else r[1]
        sig = "%s|%s" % (lab, " ".join("%s=%r" % x for x in zip(O.NAMES, o) if x[1] != O.DEFAULT[O.NAMES.index(x[0])]))
        w = impl.attempt(prn, o, d)
        acc.trans()
        if w[0] != "ok":
            acc.outcome("dumps raised (C01)")
            continue
        t = w[1]
        if fresh:  # the same again, by a new printer and by the same one
            for f in (fresh, prn):
                w2 = impl.attempt(f, o, d)
                acc.trans()
                if w2 != w:
                    acc.fail("not deterministic|" + sig, "printing the same dictionary twice gives different texts", first=t, second=w2[1])
        x = impl.attempt(loads, t)
        acc.trans()
        if x[0] != "ok":
            acc.outcome("formatted text not accepted (C01)")
            continue
        c1 = D.canon(x[1])
        w2 = impl.attempt(prn, o, x[1])
        acc.trans()
        acc.trace()
        acc.state(t)
        if w2 != w:
            acc.fail("text|" + sig, "formatting the formatted text changes it", first=t, second=w2[1], text=text)
            continue
        y = impl.attempt(loads, w2[1])
        acc.trans()
        if y[0] != "ok" or D.canon(y[1]) != c1:
            acc.fail("dict|" + sig, "the dictionary changes: %s" % (D.diff(D.canon(y[1]), c1) if y[0] == "ok" else y[1:],), first=t, text=text)


def hashes():
    """digest of the default text of every core document (run in child processes under other hash seeds)"""
    out = {}
    for l, d in O.core():
        r = impl.attempt(impl.loads_auto, D.render(d))
        if r[0] == "ok":
            for o in FEW:
                w = impl.attempt(O.printer(o).pprint, r[1])
                out["%s %r" % (l, o)] = hashlib.sha1(repr(w).encode("utf-8", "surrogatepass")).hexdigest()
    return out


_here = {}


def step(group, case, acc):
    if group == "hash":
        env = dict(os.environ, PYTHONHASHSEED=str(case), MC_REPO=impl.REPO)
        p = subprocess.run([sys.executable, "-B", "-c", "import sys; sys.path.insert(0, %r)\nfrom mc import c04, engine\nimport json; print(json.dumps(c04.hashes()))" % os.path.dirname(os.path.dirname(os.path.abspath(__file__)))],
                           env=env, capture_output=True, text=True, timeout=250)
        if p.returncode:
            raise RuntimeError(p.stderr[-2000:])
        other = json.loads(p.stdout.strip().splitlines()[-1])
        if not _here:
            _here.update(hashes())
        acc.trans(len(other))
        for k in _here:
            acc.trace()
            if other.get(k) != _here[k]:
                acc.fail("hash seed|%s|%s" % (case, k), "the text depends on the hash seed of the process")
        acc.sample("PYTHONHASHSEED=%s: %d texts" % (case, len(other)))
        return
    if group == "corpus":
        text = open(os.path.join(impl.REPO, case[0]), encoding="utf-8").read()
        same(text, O.SMALL if case[1] == "SMALL" else FEW, case[0], acc, lambda o, d: O.printer(o).pprint(d), lambda t: impl.loads(t, expand=False))
        acc.sample(case[0])
        return
    if group == "raw":
        for text in raw.texts(case):
            if impl.has_include(text):
                continue
            r = impl.attempt(impl.loads, text)
            if r[0] == "ok" and raw.printable(text, r[1], "\"'"):
                same(text, FEW, repr(text), acc, lambda o, d: O.printer(o).pprint(d), impl.loads)
        return
    text = D.render(case[1])
    if group == "public":
        same(text, FEW[:2], case[0], acc, lambda o, d: impl.pub.dumps(d, **O.kw(o)), impl.pub_loads)
    else:
        fresh = (lambda o, d: impl.PrettyPrinter(**O.kw(o)).pprint(d)) if case[0].startswith(("align", "kitchen")) and "#0" in case[0] else None
        same(text, (O.SMALL if case[2] == "SMALL" else O.FULL) if group == "core" and not fresh else FEW, case[0], acc, lambda o, d: O.printer(o).pprint(d), impl.loads_auto, fresh)
        if fresh:
            same(text, O.FULL, case[0], acc, lambda o, d: O.printer(o).pprint(d), impl.loads_auto)
    acc.sample(text)
