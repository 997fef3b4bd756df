"""C06: whatever the formatter options, the text loads to the same dictionary; grouping only moves blocks behind simple keys."""
from __future__ import annotations
import os
from . import impl, space, options as O, doc as D, roundtrip as R, raw
from .common import order_insensitive

PROP = "C06"
BOUNDS = {"quick": "the complete product of the options (indent 0-8 x spacer x quote x newlinechar x 3 booleans = 720 sets) x ~%d core documents (every keyword of every type, "
                   "every type with all its keywords in both orders, alignment and string corner cases); corpus files x 80 sets (indent 0 and 4, spacer space); every accepted sequence of two raw tokens in 27 contexts x 9 sets",
          "thorough": "720 sets x (core documents + groups B, D, F of mc/space.py + corpus files)"}
BOUNDS["quick"] = BOUNDS["quick"] % 620
ASSUMPTIONS = ["a space as newlinechar is combined with end_comment=False only, and a quote character only with documents without it inside strings (as stated)",
               "for separate_complex_types only moving a block-valued key behind a simple key is accepted; CONFIG may be treated as either",
               "the printers of one worker process share one Validator (its schema cache); printing through the public functions is covered by a sub-space"]
HEAVY = ("corpus", "core", "more")
CASE_LIMIT = 300.0


def cases(tier):
    th = tier == "thorough"
    core = O.core()
    out = [("core", c) for c in core]
    if th:
        seen = {repr(c[1]) for c in core}
        for g, (l, d) in space.documents("BDF", False):
            if repr(d) not in seen and (g != "B" or not l.startswith("ctx") or l.endswith(("block", "kv", "proj"))) and (g != "D" or "n=4" not in l):
                out.append(("more", (l, d)))
    for f in space.corpus():
        out.append(("corpus", (f, "FULL" if th else "SMALL")))
    out += [("public", c) for c in O.ALIGNS]
    out += raw.cases(1 if th else 0)
    impl.warm()
    return out


BLOCK_KEYS = {"metadata", "validation", "values", "connectionoptions", "projection", "points", "pattern"}


def is_block(k, v):
    return k in BLOCK_KEYS or (isinstance(v, dict) and "__type__" in v) or (k in D.OBJECT_LIST_KEYS and isinstance(v, list))


def moved_ok(a, b, path="$"):
    """None, or how the key order of b is not that of a with some block-valued keys moved later"""
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = moved_ok(x, y, "%s[%d]" % (path, i))
            if r:
                return r
        return None
    if not isinstance(a, dict):
        return None
    ka = [k for k in a if not R.is_hidden(k)]
    if a.get("__type__") in D.KV_TYPES:
        return None if ka == [k for k in b if not R.is_hidden(k)] else "%s: keys %r vs %r" % (path, ka, list(b))
    pos = {k: i for i, k in enumerate(x for x in b if not R.is_hidden(x))}
    for i, k in enumerate(ka):
        for l in ka[i + 1:]:
            if pos[k] < pos[l]:
                continue
            # l now comes before k: only if k is a block and l is simple
            if not (is_block(k, a[k]) or k == "config") or (is_block(l, a[l]) and k != "config"):
                return "%s: %s (before) and %s changed places: %r vs %r" % (path, k, l, ka, list(pos))
    for k in ka:
        r = moved_ok(a[k], b[k], path + "." + k)
        if r:
            return r
    return None


def sweep(text, sets, lab, acc, prn, loads):
    r = impl.attempt(loads, text)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted by loads")
        return
    if R.unknown_keywords(r[1]):
        acc.outcome("keywords unknown to the schema")
        return
    quotes = [q for q in O.QUOTES if not O.has_quote(r[1], q)]
    if not quotes:
        acc.outcome("strings with both quotes")
        return
    w = impl.attempt(prn, (4, " ", quotes[0], "\n", False, False, False), r[1])
    b = impl.attempt(loads, w[1]) if w[0] == "ok" else w
    acc.trans(2)
    if b[0] != "ok":
        acc.outcome("default formatting not accepted (C01)")
        return
    base = b[1]
    cb = D.canon(base)
    ob = order_insensitive(cb)
    acc.state(cb)
    done = {}
    n0 = len(acc.viol)
    for o in sets:
        if o[2] not in quotes:
            continue
        if len(acc.viol) >= n0 + 3:
            break  # further option sets for the same document add nothing to the report
        d = impl.attempt(loads, text)[1] if o[6] else r[1]  # separating may reorder the dictionary it is given
        w = impl.attempt(prn, o, d)
        acc.trans()
        sig = "%s|%s" % (lab, " ".join("%s=%r" % x for x in zip(O.NAMES, o) if x[1] != O.DEFAULT[O.NAMES.index(x[0])]))
        if w[0] != "ok":
            acc.fail("dumps raised|" + sig, w[1:], text=text)
            continue
        key = (w[1], o[6])
        if key in done:
            continue
        done[key] = 1
        acc.state((w[1]))
        x = impl.attempt(loads, w[1])
        acc.trans()
        acc.trace()
        if x[0] != "ok":
            acc.fail("rejected|" + sig, "%s %s" % x[1:], printed=w[1], text=text)
            continue
        c = D.canon(x[1])
        if c == cb:
            continue
        if not o[6]:
            acc.fail("content|" + sig, D.diff(c, cb), printed=w[1], text=text)
        elif order_insensitive(c) != ob:
            acc.fail("content|" + sig, D.diff(order_insensitive(c), ob), printed=w[1], text=text)
        else:
            m = moved_ok(base, x[1])
            if m:
                acc.fail("order|" + sig, m, printed=w[1], text=text)


def step(group, case, acc):
    if group == "corpus":
        text = open(os.path.join(impl.REPO, case[0]), encoding="utf-8").read()
        sets = O.FULL if case[1] == "FULL" else O.SMALL
        sweep(text, sets, case[0], acc, lambda o, d: O.printer(o).pprint(d), lambda t: impl.loads(t, expand=False))
        acc.sample(case[0])
        return
    if group == "raw":
        for text in raw.texts(case):
            if impl.has_include(text):
                continue
            r = impl.attempt(impl.loads, text)
            if r[0] == "ok" and raw.printable(text, r[1], "\"'"):
                sweep(text, O.SMALL[::9], repr(text), acc, lambda o, d: O.printer(o).pprint(d), impl.loads)
        return
    text = D.render(case[1])
    if group == "public":
        sweep(text, O.product((0, 3), (" ",), O.QUOTES, O.NEWLINES), case[0], acc, lambda o, d: impl.pub.dumps(d, **O.kw(o)), impl.pub_loads)
    else:
        sweep(text, O.FULL, case[0], acc, lambda o, d: O.printer(o).pprint(d), impl.loads_auto)
    acc.sample(text)
