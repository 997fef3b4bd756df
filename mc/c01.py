"""C01: loads(dumps(loads(t))) equals loads(t) up to enum case and number -> numeric string, for every t accepted."""
from __future__ import annotations
import os
from . import impl, space, doc as D, roundtrip as R, raw

PROP = "C01"
BOUNDS = {"quick": "document groups A (all positions), B, C, D (<=3 items), E, F, G, K, X of mc/space.py and every corpus file, through the worker objects; "
                   "one value per slot, all roots and all containment paths through the public functions; "
                   "every accepted sequence of two raw tokens (alphabet of 85) and of three (48 x 27 x 48) in 27 contexts",
          "thorough": "the same with all three-token sequences over 48 tokens, all value samples, 4-item documents, root triples, 300-object documents"}
ASSUMPTIONS = ["value alphabet is finite (mc/vocab.py, mc/space.GENERIC); corpus files add ~430 real documents",
               "excluded as documented: strings holding an unescaped output quote, expression-looking strings of expression keywords"]


# values ending in a backslash
ENDS = [("last", "LAYER NAME 'C:\\data\\' END"), ("followed", "LAYER NAME 'C:\\data\\' GROUP \"g\" END"), ("single", "LAYER NAME 'a\\' TYPE POINT END")]


def raw_step(case, acc):
    for text in raw.texts(case):
        if impl.has_include(text):
            continue
        acc.trans()
        r = impl.attempt(impl.loads, text)
        if r[0] != "ok":
            continue
        d = r[1]
        if not raw.printable(text, d):
            acc.outcome("raw: unknown keyword, or a string holding the output quote, looking special or ending in a backslash")
            continue
        acc.outcome("raw accepted")
        acc.state(D.canon(d))
        w = impl.attempt(impl.dumps, d)
        acc.trans()
        if w[0] != "ok":
            acc.fail("dumps raised|" + repr(text), w[1:], text=text)
            continue
        b = impl.attempt(impl.loads, w[1])
        acc.trans()
        if b[0] != "ok":
            acc.fail("rejected|" + repr(text), "printed text is rejected: %s %s" % b[1:], text=text, printed=w[1])
            continue
        acc.trace()
        x = R.diff(d, b[1])
        if x:
            acc.fail("content|" + repr(text), "changed by a round trip at " + x, text=text, printed=w[1])


def cases(tier):
    th = tier == "thorough"
    docs = space.documents("ABCDEFGKX", th)
    out = list(docs) + [("ends", x) for x in ENDS] + space.public_subspace(docs) + [("H", f) for f in space.corpus()]
    out += raw.cases(2 if th else 1)
    impl.warm()
    return out


def step(group, case, acc):
    if group == "raw":
        return raw_step(case, acc)
    if group == "H":
        lab, text = "corpus " + case, open(os.path.join(impl.REPO, case), encoding="utf-8").read()
        skip = R.both_quotes(text)
    elif group == "ends":
        lab, text = "ends with a backslash, " + case[0], case[1]
        skip = False
    else:
        lab, text = case[0], D.render(case[1])
        skip = False
    ld, dm = (impl.pub_loads, impl.pub.dumps) if group == "public" else (impl.loads_auto, impl.dumps)
    r = impl.attempt(ld, text)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted by loads")
        return
    acc.outcome("accepted")
    d = r[1]
    c = D.canon(d)
    acc.state(c)
    if skip and R.any_string(d, lambda s: '"' in s.replace('\\"', "")):
        acc.outcome("corpus file with strings containing the output quote")
        return
    if group == "H" and R.unknown_keywords(d):
        acc.outcome("corpus file with keywords unknown to the schema")
        return
    w = impl.attempt(dm, d)
    acc.trans()
    if w[0] != "ok":
        acc.fail("dumps raised|" + lab, w[1:], text=text)
        return
    b = impl.attempt(ld, w[1])
    acc.trans()
    if b[0] != "ok":
        acc.fail("rejected|" + lab, "printed text is rejected: %s %s" % b[1:], text=text, printed=w[1])
        return
    acc.trace()
    x = R.diff(d, b[1])
    if x:
        acc.fail("content|" + lab, "changed by a round trip at " + x, text=text, printed=w[1])
    acc.sample(text)
