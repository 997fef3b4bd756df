"""C02: loads(render(ast)) equals the dictionary the documented contract assigns to the AST."""
from __future__ import annotations
import os
from . import impl, space, doc as D, reader, exprmodel
from .common import order_insensitive  # noqa: F401

PROP = "C02"
BOUNDS = {
    "quick": "groups A-G, K and X of mc/space.py (every slot x value sample x position; every slot in every parent context; all ordered slot pairs; "
             "all reduced-alphabet documents up to 3-4 items; duplicates; ordered root pairs; 120-object documents) + every corpus file; "
             "each through the worker objects, a fixed sub-space through the public functions",
    "thorough": "as quick with all value samples, 3x2 samples per slot pair, 4-item builder documents, root triples, 300-object documents"}
ASSUMPTIONS = ["documents are written one keyword per line (other layouts: C05)",
               "expression values are compared after an independent normalisation (their exact form: C10)",
               "value alphabet is finite (mc/vocab.py); corpus files add ~430 real documents"]


def cases(tier):
    th = tier == "thorough"
    docs = space.documents("ABCDEFGKX", th)
    out = list(docs)
    out += space.public_subspace(docs)
    out += [("H", f) for f in space.corpus()]
    impl.warm()
    return out


def check(text, expected, got, acc, sig, **kw):
    acc.trans()
    if got[0] != "ok":
        acc.fail("rejected|" + sig, "loads raised %s: %s" % (got[1], got[2]), text=text)
        return None
    c = exprmodel.canon(got[1])
    acc.trace()
    e = exprmodel.canon(expected)
    acc.state(c)
    if c != e:
        acc.fail("content|" + sig, "got differs from expected at " + str(D.diff(c, e)), text=text, got=D.plain(c), expected=D.plain(e))
    return c


def step(group, case, acc):
    if group == "H":
        fn = os.path.join(impl.REPO, case)
        text = open(fn, encoding="utf-8").read()
        got = impl.attempt(impl.loads, text, expand=False)
        acc.trans()
        if got[0] != "ok":
            acc.outcome("corpus file rejected")
            return
        acc.outcome("corpus file accepted")
        check(text[:2000], D.expected(reader.read(text)), got, acc, "corpus " + case)
        acc.sample(case)
        return
    lab, doc = case
    text = D.render(doc)
    f = impl.pub_loads if group == "public" else impl.loads_auto
    check(text, D.expected(doc), impl.attempt(f, text), acc, lab)
    acc.sample(text)
