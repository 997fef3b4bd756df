"""C19: grammar, keyword tables and schemas describe one vocabulary."""
from __future__ import annotations
import copy, itertools, json, logging, os
from . import impl, space, doc as D, vocab as V, roundtrip as R, draft4, flatten, exprmodel
from .vocab import S, W, SIMPLE
from .space import SIMPLE2, CHILD

PROP = "C19"
BOUNDS = {
    "quick": "every block type x every keyword of its schema (union of the frozen vocabulary and the schemas of the tree, ~600 slots) x every value alternative x position (only, first, middle, last, before and after 10 kinds of neighbour) x context (root, every containment path of depth 1 to 3); "
             "every ordered pair of keywords of a block; every block type at the root, in every parent, once and twice; every declared default x every version; create for every type x ~14 versions, at the root and put into every parent",
    "thorough": "all value samples per alternative, pairs with every alternative of both keywords, contexts of depth 4",
}
ASSUMPTIONS = ["value alternatives have the finite representatives of mc/vocab.py", "missing required keywords are not counted as problems"]
HEAVY = ()
CASE_LIMIT = 200.0
SCHEMAS = os.path.join(impl.REPO, "mappyfile", "schemas")
VERSIONS = (None, 4.0, 4.8, 5.0, 5.2, 5.4, 5.6, 6.0, 6.2, 6.4, 7.0, 7.2, 7.4, 7.6, 8.0, 8.2)


class Errors(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self, logging.ERROR)
        self.rows = []

    def emit(self, record):
        try:
            self.rows.append(record.getMessage())
        except Exception:
            self.rows.append("?")


_h = None


def errors_logged(f, *a):
    """(result, messages logged as errors): the printer reports a keyword its schema lookup does not find"""
    global _h
    if _h is None:
        _h = Errors()
        l = logging.getLogger("mappyfile")
        l.addHandler(_h)
        l.propagate = False
    _h.rows = []
    off = logging.root.manager.disable
    logging.disable(logging.NOTSET)
    try:
        r = f(*a)
    finally:
        logging.disable(off)
    return r, list(_h.rows)


# ---------------------------------------------------------------- the vocabulary of the tree
_cur = None


def current():
    global _cur
    if _cur is None:
        try:
            _cur = flatten.vocabulary(SCHEMAS)
        except Exception as e:
            _cur = {"error": "%s: %s" % (type(e).__name__, e)}
    return _cur


def use_current():
    """validity is judged by the schemas of the tree, with the independent interpreter"""
    draft4.FOLDER = SCHEMAS
    draft4.load.cache_clear()


def samples(t, k, th):
    """[(shape, item)] of the frozen vocabulary and of the present schema"""
    out, seen = [], set()
    frozen = V.VOCAB[t]["slots"].get(k)
    cur = current().get(t, {}).get("slots", {}).get(k)
    for slot in ([frozen] if frozen else []) + ([cur] if cur and cur != frozen else []):
        V.VOCAB[t]["slots"][k] = slot
        try:
            rows = V.slot_samples.__wrapped__(t, k, th)
        finally:
            if frozen:
                V.VOCAB[t]["slots"][k] = frozen
            else:
                del V.VOCAB[t]["slots"][k]
        for sh, it, cls in rows:
            if repr(it) not in seen:
                seen.add(repr(it))
                out.append((sh, it))
        # a block as the value of the keyword
        for a in slot.get("alts", ()):
            if a["k"] == "block":
                out.append(("block", ("block", a["type"], [SIMPLE[a["type"]]])))
    return out


def slots_of(t):
    return sorted(set(V.VOCAB.get(t, {"slots": {}})["slots"]) | set(current().get(t, {}).get("slots", {})))


# shapes that are accepted but are no alternative of the schema
NOT_LISTED = ("strnum", "mixed-r", "bindpair")

_validator = None


def validate(d, **kw):
    global _validator
    if _validator is None:
        _validator = impl.pub.Validator() if hasattr(impl.pub, "Validator") else None
    if _validator is None:
        from mappyfile.validator import Validator
        _validator = Validator()
    return [m for m in _validator.validate(d, **kw) if not str(m.get("error")).endswith("is a required property")]


def one(text, want, acc, sig, listed=True, shape=None, version=None, light=False):
    """loads, dumps, loads again, validate one small document"""
    r = impl.attempt(impl.loads_auto, text)
    acc.trans()
    if r[0] != "ok":
        acc.fail("parse|" + sig, "not parsed: %s %s" % r[1:], text=text)
        return False
    c = exprmodel.canon(r[1])
    acc.state(c)
    if want is not None:
        e = exprmodel.canon(want)
        if c != e:
            acc.fail("content|" + sig, "got differs from expected at " + str(D.diff(c, e)), text=text)
            return False
    (p, logged) = errors_logged(impl.attempt, impl.dumps, r[1])
    acc.trans()
    if p[0] != "ok":
        acc.fail("print|" + sig, "not printed: %s %s" % p[1:], text=text)
        return False
    if logged:
        acc.fail("lookup|" + sig, "the printer reports %r" % logged[:2], text=text)
        return False
    if light:
        acc.trace()
        return True
    b = impl.attempt(impl.loads_auto, p[1])
    acc.trans()
    if b[0] != "ok":
        acc.fail("reparse|" + sig, "the printed text is rejected: %s %s" % b[1:], text=text, printed=p[1])
        return False
    x = R.diff(r[1], b[1])
    if x:
        acc.fail("roundtrip|" + sig, "printing changes it at " + x, text=text, printed=p[1])
        return False
    if listed:
        for m in validate(copy.deepcopy(r[1])):
            acc.fail("valid|" + sig, "%s: %s" % (m.get("message"), str(m.get("error"))[:500]), text=text)
            return False
        acc.trans()
    acc.trace()
    return True


NEIGHBOURS = {
    "word": ("attr", "status", W("ON")), "str": ("attr", "name", S("n")), "num": ("attr", "debug", ("int", "1")), "kv": ("kv", "metadata", [(S("a"), S("b"))]), "points": ("points", [("1", "2")]),
    "expr": ("attr", "filter", ("expr", "( [a] > 1 )")), "proj": ("proj", [S("init=epsg:4326")]), "bool": ("attr", "antialias", ("bool", "TRUE")), "hex": ("attr", "color", ("hex", "#aabbcc")),
    "rgb": ("attr", "color", ("list", [("int", "1"), ("int", "2"), ("int", "3")])), "bind": ("attr", "angle", ("bind", "ang")), "regex": ("attr", "expression", ("regex", "/a/")), "rep": ("rep", "processing", S("A=1")),
    "config": ("config", S("A"), S("1")), "class": ("block", "class", [SIMPLE["class"]]), "style": ("block", "style", [SIMPLE["style"]]), "label": ("block", "label", [SIMPLE["label"]]), "symbol": ("attr", "symbol", W("circle")), "pair": ("attr", "size", ("list", [("int", "20"), ("int", "10")]))}


def allowed(t):
    """neighbours the schema of t lists"""
    out = []
    ks = set(slots_of(t))
    for n, it in NEIGHBOURS.items():
        k = it[1] if it[0] in ("attr", "rep", "kv") else D.PLURAL[it[1]] if it[0] == "block" and it[1] in D.PLURAL else {"proj": "projection", "config": "config", "points": "points"}.get(it[0], it[1])
        if k not in ks:
            continue
        if it[0] == "attr":
            sl = V.VOCAB[t]["slots"].get(k)
            if not sl or sl["kind"] != "attr":
                continue
            sm = [x for sh, x, c in V.slot_samples(t, k, False)]
            kinds = {x[2][0] for x in sm}
            if it[2][0] not in kinds or it[2][0] == "word" and it not in sm or n == "pair" and not any(x[2][0] == "list" and len(x[2][1]) == 2 for x in sm) or n == "rgb" and not any(x[2][0] == "list" and len(x[2][1]) == 3 for x in sm) or n == "num" and not any(x[2][0] == "int" for x in sm):
                continue
        out.append((n, it))
    return out


def one_only(t, k):
    """the schema allows a single object"""
    return (V.VOCAB[t]["slots"].get(k) or {}).get("maxItems") == 1


def key_of(it):
    return it[1] if it[0] in ("attr", "rep", "kv", "block") else it[0]


def slot(t, k, th, acc):
    near = allowed(t)
    for sh, it in samples(t, k, th):
        lab = "%s.%s/%s/%s" % (t, k, sh, V.item_text(it))
        listed = sh not in NOT_LISTED
        s1, s2 = SIMPLE[t], SIMPLE2[t]
        if key_of(s1) == key_of(it):
            s1 = s2
        if key_of(s2) == key_of(it):
            s2 = s1
        known = it[0] == "block" and V.VOCAB[t]["slots"].get(k, {}).get("kind") == "attr"

        def do(where, d, **kw):
            return one(D.render(d), D.expected(d), acc, lab + ("" if known else "@" + where), listed, **kw)
        if not do("only", space.root(t, [it])):
            continue
        if t == "symbolset" and it[0] == "block":
            do("twice", space.root(t, [it, it]))
            continue
        ok = s1 is it or do("first", space.root(t, [it, s1])) and do("last", space.root(t, [s1, it])) and do("mid", space.root(t, [s1, it, s2]) if s1 is not s2 else space.root(t, [s1, it]))
        if not ok:
            continue
        for n, x in near:
            if key_of(x) == key_of(it) and (it[0] not in ("block", "rep") or one_only(t, k)) or x[0] == "kv" and it[0] == "kv" and x[1] == it[1]:
                continue
            if not do("before " + n, space.root(t, [it, x])) or not do("after " + n, space.root(t, [x, it])):
                break
        for path in space.parents_paths(t, 4 if th else 3):
            if path:
                if not do("/".join(path), space.wrap(path, ("block", t, [it]))):
                    break
                if len(path) == 1 and SIMPLE[path[0]][0] == "attr":
                    p = path[0]
                    if not do("mid in " + p, space.root(p, [SIMPLE[p], ("block", t, [s1, it] if s1 is not it else [it]), SIMPLE2[p]])):
                        break
        # the versions the schema gives for the keyword
        sl = current().get(t, {}).get("slots", {}).get(k) or {}
        lo, hi = sl.get("lo", 0.0), sl.get("hi", 1000.0)
        if listed and not known:
            d = impl.attempt(impl.loads_auto, D.render(space.root(t, [it])))
            for v in VERSIONS[1:]:
                if lo <= v <= hi and d[0] == "ok":
                    ms = validate_version(d[1], v)
                    acc.trans()
                    want = draft4.errors(draft4.lower(strip(d[1])), draft4.load(t), v)
                    want = [w for w in want if w[1] != "required"]
                    if ms and not want:
                        acc.fail("version|%s|%s" % (lab, v), "%s" % ms[:2])
                        break
    acc.sample(t + "." + k)


_vv = {}


def validate_version(d, v):
    """compiled once per type and version"""
    t = d["__type__"]
    if (t, v) not in _vv:
        import jsonschema
        from mappyfile.validator import Validator
        _vv[t, v] = jsonschema.Draft4Validator(schema=Validator().get_versioned_schema(v, t))
    return [e.message[:300] for e in _vv[t, v].iter_errors(json.loads(json.dumps(lower(d)))) if not e.message.endswith("is a required property")]


def lower(x):
    return draft4.lower(x)


def strip(x):
    return x


def pairs(t, k1, th, acc):
    """keyword k1 followed by every other keyword of the block"""
    s1 = samples(t, k1, th)
    by = {}
    for sh, it in s1:
        by.setdefault(sh, it)
    for sh, it in by.items():
        if it[0] == "block" and V.VOCAB[t]["slots"].get(k1, {}).get("kind") == "attr":
            continue
        for k2 in slots_of(t):
            s2 = samples_cached(t, k2)
            seen2 = {}
            for sh2, it2 in s2:
                seen2.setdefault(sh2, it2)
            for sh2, it2 in list(seen2.items())[:None if th else 2]:
                if it2[0] == "block" and V.VOCAB[t]["slots"].get(k2, {}).get("kind") == "attr":
                    continue
                if k1 == k2 and it[0] in ("kv", "points", "block", "config"):
                    continue
                d = space.root(t, [it, it2])
                if not one(D.render(d), D.expected(d), acc, "%s.%s/%s then %s/%s" % (t, k1, sh, k2, sh2), light=True):
                    break
    acc.sample("%s.%s" % (t, k1))


_sc = {}


def samples_cached(t, k):
    if (t, k) not in _sc:
        _sc[t, k] = samples(t, k, False)
    return _sc[t, k]


# ---------------------------------------------------------------- block types
def block_type(t, acc):
    """root, children, lists"""
    from mappyfile.ordereddict import CaseInsensitiveOrderedDict as C
    for it in (SIMPLE[t], SIMPLE2[t]):
        for body in ([it], []):
            d = space.root(t, body)
            for spell in (str.upper, str.lower, str.capitalize):
                text = D.render(d)
                text = spell(t) + text[len(t):]
                one(text, D.expected(d), acc, "root %s %s %d" % (t, spell.__name__, len(body)), bool(body) or t != "symbolset")
            if t != "symbolset":
                two = d + d
                one(D.render(two), D.expected(two), acc, "root twice %s %d" % (t, len(body)), False)
    if t in ("map", "symbolset"):
        return
    sch = draft4.has(t)
    if not sch:
        acc.fail("schema|" + t, "no schema file")
        return
    for p in V.PARENTS[t]:
        key = t if t in D.SINGLE else D.PLURAL[t]
        b1, b2 = ("block", t, [SIMPLE[t]]), ("block", t, [SIMPLE2[t]])
        # once
        d = space.root(p, [b1])
        one(D.render(d), D.expected(d), acc, "%s in %s" % (t, p))
        x = impl.loads(D.render(d))
        y = x.get(key)
        if isinstance(y, dict) != (t in D.SINGLE) or isinstance(y, list) != (t in D.PLURAL):
            acc.fail("stored|%s|%s" % (t, p), "stored as %r" % (x,))
        # several times
        many = not one_only(p, key)
        if t in D.PLURAL:
            for bs in ([b1, b2], [b2, b1, b1]):
                d = space.root(p, bs)
                one(D.render(d), D.expected(d), acc, "%d %s in %s" % (len(bs), t, p), many)
            # the auto-creating dictionary: read, append, print
            for src in (impl.loads("%s END" % p.upper()), C(C)):
                src["__type__"] = p
                l = src[key]
                acc.trans(3)
                if l != [] or not isinstance(l, list) or src[key.upper()] is not l:
                    acc.fail("auto|%s|%s" % (t, p), "reading %s gives %r" % (key, l))
                    continue
                its = (SIMPLE[t], SIMPLE2[t]) if many else (SIMPLE[t],)
                for it in its:
                    l.append(impl.loads(D.render(space.root(t, [it]))))
                built(src, D.expected(space.root(p, [("block", t, [it]) for it in its])), acc, "auto %s %s" % (t, p))
        else:
            for src in (impl.loads("%s END" % p.upper()), C(C)):
                src["__type__"] = p
                l = src[key]
                acc.trans(3)
                if not isinstance(l, dict) or len(l) or src[key.upper()] is not l:
                    acc.fail("auto|%s|%s" % (t, p), "reading %s gives %r" % (key, l))
                    continue
                l["__type__"] = t
                e = impl.loads(D.render(space.root(t, [SIMPLE[t]])))
                for k in e:
                    l[k] = e[k]
                built(src, D.expected(space.root(p, [("block", t, [SIMPLE[t]])])), acc, "auto %s %s" % (t, p))
        props = draft4.load(p)["properties"]
        if key not in props:
            acc.fail("parent|%s|%s" % (t, p), "the schema of %s has no %s" % (p, key))
    acc.sample(t)


def built(d, want, acc, sig):
    """a dictionary made by hand prints and reads as the wanted one"""
    p, logged = errors_logged(impl.attempt, impl.dumps, d)
    acc.trans()
    if p[0] != "ok" or logged:
        acc.fail("print|" + sig, "%s %r" % (str(p)[:500], logged[:2]))
        return
    r = impl.attempt(impl.loads, p[1])
    acc.trans()
    acc.trace()
    if r[0] != "ok" or R.diff(d, r[1]) or R.diff(want, r[1]):
        acc.fail("reload|" + sig, "%s %s %s" % (str(r)[:300], R.diff(d, r[1]) if r[0] == "ok" else "", R.diff(want, r[1]) if r[0] == "ok" else ""), printed=p[1])
    ms = validate(copy.deepcopy(d))
    if ms:
        acc.fail("valid|" + sig, "%s" % str(ms[0])[:500])


# ---------------------------------------------------------------- defaults
def defaults(s, path=()):
    if isinstance(s, dict):
        if "default" in s and not isinstance(s["default"], dict):
            yield path, s
        for k, v in s.items():
            if k not in ("default", "enum"):
                yield from defaults(v, path + (k,))
    elif isinstance(s, list):
        for i, v in enumerate(s):
            yield from defaults(v, path + (i,))


def default_values(name, acc):
    """every default of a schema file satisfies the schema it stands beside"""
    for path, s in defaults(draft4.load(name)):
        for v in VERSIONS:
            if not draft4.available(s, v):
                continue
            acc.trans()
            acc.trace()
            alone = {k: x for k, x in s.items() if k != "metadata"}
            bad = draft4.errors(draft4.lower(s["default"]), alone, v) and draft4.errors(s["default"], alone, v)
            acc.state((name, path, v))
            if bad:
                acc.fail("default|%s|%s" % (name, ".".join(str(p) for p in path if p != "properties")), "the default %r is not valid: %r (version %s)" % (s["default"], bad[:3], v))
                break
            # the library agrees
        if path[:1] == ("properties",) and len(path) == 2 and name in V.TYPES:
            d = {"__type__": name, path[1]: s["default"]}
            for m in validate(dict(d)):
                acc.fail("default|%s|%s" % (name, path[1]), "%s %s" % (m.get("message"), str(m.get("error"))[:200]))
                break
            one_default(name, path[1], s["default"], acc)
    acc.sample(name)


def one_default(name, key, value, acc):
    d = {"__type__": name, key: value}
    sig = "default %s.%s" % (name, key)
    p, logged = errors_logged(impl.attempt, impl.dumps, d)
    acc.trans()
    if p[0] != "ok" or logged:
        acc.fail("print|" + sig, "%s %r" % (str(p)[:500], logged[:2]))
        return
    r = impl.attempt(impl.loads, p[1])
    acc.trans()
    if r[0] != "ok" or R.diff(d, r[1]):
        acc.fail("reload|" + sig, "%s" % str(r)[:500], printed=p[1])


def create(t, acc):
    """create(type, version) prints, loads again and validates"""
    for v in VERSIONS:
        r = impl.attempt(lambda: impl.pub.create(t, v) if v is not None else impl.pub.create(t))
        acc.trans()
        sig = "create|%s" % t
        if r[0] != "ok":
            acc.fail(sig + "|%s" % v, "%s %s" % r[1:])
            return
        d = r[1]
        if d.get("__type__") != t:
            acc.fail(sig + "|type", "type %r" % d.get("__type__"))
            return
        # exactly the defaults of the keywords available in the version
        sch = draft4.load(t)
        want = {k: s["default"] for k, s in sch["properties"].items() if "default" in s and "$ref" not in s and draft4.available(s, v)}
        got = {k: x for k, x in d.items() if k != "__type__"}
        miss = {k: x for k, x in want.items() if k not in got or got[k] != x or type(got[k]) is not type(x)}
        extra = {k: x for k, x in got.items() if k not in sch["properties"] or not draft4.available(sch["properties"][k], v) or sch["properties"][k].get("default") != x and "$ref" not in json.dumps(sch["properties"][k])}
        if miss or extra:
            acc.fail(sig + "|defaults", "version %s: not the declared defaults: %r missing, %r extra" % (v, miss, extra))
            return
        p, logged = errors_logged(impl.attempt, impl.dumps, d)
        acc.trans()
        if p[0] != "ok" or logged:
            acc.fail(sig + "|print", "version %s: %s %r" % (v, str(p)[:500], logged[:2]))
            return
        b = impl.attempt(impl.loads, p[1])
        acc.trans()
        acc.trace()
        acc.state((t, p[1]))
        if b[0] != "ok" or R.diff(d, b[1]):
            acc.fail(sig + "|reload", "version %s: %s" % (v, R.diff(d, b[1]) if b[0] == "ok" else str(b)[:300]), printed=p[1])
            return
        for x in (d, b[1]):
            for kw in ({}, {"version": v}) if v is not None else ({},):
                ms = validate(copy.deepcopy(dict(x)), **kw) if not kw else [m for m in impl.pub.validate(copy.deepcopy(dict(x)), **kw) if not str(m.get("error")).endswith("is a required property")]
                acc.trans()
                bad = draft4.errors(draft4.lower(dict(x)), sch, v if kw else None)
                names = {str(q[0]).lower() for q, w in bad if w != "required" and q}
                for m in ms:
                    key = str(m.get("message", "")).split()[-1].lower()
                    acc.fail("%s|invalid|%s" % (sig, key), "version %s: %s %s" % (v, m.get("message"), str(m.get("error"))[:300]), printed=p[1])
                for q in names:
                    if not any(str(m.get("message", "")).lower().endswith(q) for m in ms):
                        acc.fail("%s|invalid|%s" % (sig, q), "version %s: the default %r does not conform to the schema" % (v, x[q]), printed=p[1])
        # put into every parent
        for parent in V.PARENTS.get(t, ()):
            key = t if t in D.SINGLE else D.PLURAL[t]
            q = impl.pub.create(parent, v) if v is not None else impl.pub.create(parent)
            q[key] = d if t in D.SINGLE else [d, impl.pub.create(t, v) if v is not None else impl.pub.create(t)]
            p2 = impl.attempt(impl.dumps, q)
            b2 = impl.attempt(impl.loads, p2[1]) if p2[0] == "ok" else p2
            acc.trans(2)
            if b2[0] != "ok" or R.diff(q, b2[1]):
                acc.fail("%s|in %s" % (sig, parent), "version %s: %s" % (v, R.diff(q, b2[1]) if b2[0] == "ok" else str(b2)[:300]))
                return
        # nothing of it is shared with the next one
        e = impl.pub.create(t, v) if v is not None else impl.pub.create(t)
        for k in list(d):
            if isinstance(d[k], list):
                d[k].append("changed")
        d["new"] = 1
        f = impl.pub.create(t, v) if v is not None else impl.pub.create(t)
        if dict(e) != dict(f):
            acc.fail(sig + "|shared", "version %s: %r, then %r" % (v, dict(e), dict(f)))
            return
    acc.sample(t)


def tables(acc):
    """the vocabulary of the tree against the published one, and the tables against each other"""
    cur = current()
    if "error" in cur:
        acc.fail("tables|schemas", cur["error"])
        return
    for t in V.TYPES:
        acc.trans()
        acc.state(t)
        if t not in cur:
            acc.fail("tables|%s" % t, "no schema")
            continue
        for k, s in V.VOCAB[t]["slots"].items():
            if k not in cur[t]["slots"]:
                acc.fail("tables|%s.%s" % (t, k), "the keyword is no longer in the schema")
    for f in sorted(os.listdir(SCHEMAS)):
        if f.endswith(".json"):
            acc.trans()
            try:
                draft4.load(f)
            except ValueError as e:
                acc.fail("tables|file %s" % f, str(e))
    # every reference can be resolved
    def refs(s):
        if isinstance(s, dict):
            for k, v in s.items():
                if k == "$ref" and isinstance(v, str):
                    yield v
                else:
                    yield from refs(v)
        elif isinstance(s, list):
            for v in s:
                yield from refs(v)
    for f in sorted(os.listdir(SCHEMAS)):
        if f.endswith(".json"):
            for r in refs(draft4.load(f)):
                if not os.path.exists(os.path.join(SCHEMAS, r)):
                    acc.fail("tables|ref %s %s" % (f, r), "no such schema")
    for t in V.TYPES + list(D.KV_TYPES) + ["projection", "points", "color", "nothing", ""]:
        acc.trans()
        if t in V.TYPES:
            continue
        if not draft4.has(t) and t not in ("values", "pattern"):
            try:
                x = impl.pub.create(t)
                acc.fail("tables|create %s" % t, "creates %r" % (x,))
            except SyntaxError:
                pass


def unknown(acc):
    """what the schema does not list is reported: the tables are not simply permissive"""
    for t in V.TYPES:
        for k in ("unknownword", "layer", "maps", "abc"):
            if k in slots_of(t):
                continue
            d = {"__type__": t, k: "x"}
            acc.trans()
            ms = validate(dict(d))
            if not ms:
                acc.fail("unknown|%s.%s" % (t, k), "a keyword the schema does not list validates")


def cases(tier):
    th = tier == "thorough"
    use_current()
    current()
    out = []
    if "error" in current():
        return [("tables", 0)]
    for t in V.TYPES:
        for k in slots_of(t):
            out.append(("slot", (t, k, th)))
            out.append(("pairs", (t, k, th)))
    for t in V.TYPES:
        out.append(("type", t))
        out.append(("create", t))
    for t in ("metadata", "validation", "connectionoptions"):
        out.append(("create", t))
    for f in sorted(os.listdir(SCHEMAS)):
        if f.endswith(".json"):
            out.append(("defaults", f[:-5]))
    out += [("tables", 0), ("unknown", 0)]
    impl.warm()
    return out


def step(group, case, acc):
    if group == "slot":
        slot(case[0], case[1], case[2], acc)
    elif group == "pairs":
        pairs(case[0], case[1], case[2], acc)
    elif group == "type":
        block_type(case, acc)
    elif group == "create":
        create(case, acc)
    elif group == "defaults":
        default_values(case, acc)
    elif group == "tables":
        tables(acc)
    elif group == "unknown":
        unknown(acc)
