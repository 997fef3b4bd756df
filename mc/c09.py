"""C09: minVersion / maxVersion annotations decide exactly, in every context, whatever was asked before."""
from __future__ import annotations
import copy, itertools, json, os, shutil, tempfile
from . import impl, space, doc as D, vocab as V, draft4, options as O, c07
from mappyfile.validator import Validator

PROP = "C09"
BOUNDS = {"quick": "every annotated keyword and alternative x every parent context (depth <= 4) x a valid, a wrong and an alternative-specific value x versions just below / at / just above its bounds; "
                   "every annotated entry x 60 values x its bounds; 2 values x all 43 versions; every slot x 3 values x 6 versions; exported schemas of all types x all versions judged against the rule; "
                   "command line exports; create for all types x versions; all histories of 2 calls over 40 operations and of 3 calls over 11 operations on one Validator and across Validators in one process",
          "thorough": "as quick with all values in every context, histories of 3 calls over 24 operations and of 4 over 8"}
ASSUMPTIONS = ["the oracle applies the documented rule (mc/draft4.py: available) to the schemas frozen at the pinned commit",
               "the root annotation of connectionoptions.json is not judged when CONNECTIONOPTIONS itself is the validated root"]
HEAVY = ("context", "values")
CASE_LIMIT = 300.0
ROOTS = [t for t in V.TYPES]


def bounds_of(s, out=None):
    """all bounds in a property schema (not following into other objects' properties)"""
    out = set() if out is None else out
    if isinstance(s, dict):
        md = s.get("metadata")
        if isinstance(md, dict):
            for k in ("minVersion", "maxVersion"):
                if k in md:
                    out.add(md[k])
        if "$ref" in s:
            r = draft4.load(s["$ref"])
            if "properties" not in r or not r["properties"]:
                bounds_of(r, out)
            elif isinstance(r.get("metadata"), dict):
                bounds_of({"metadata": r["metadata"]}, out)
        for k in ("oneOf", "anyOf", "allOf"):
            for a in s.get(k, []):
                bounds_of(a, out)
        it = s.get("items")
        for a in (it if isinstance(it, list) else [it] if it else []):
            bounds_of(a, out)
    return out


def entries():
    """[(type, keyword, bounds)] for the annotated keywords"""
    out = []
    for t in V.TYPES:
        for k, s in draft4.load(t)["properties"].items():
            b = bounds_of(s)
            if b:
                out.append((t, k, sorted(b)))
    return out


ALL = sorted({b for t, k, bs in entries() for b in bs})


def near(bs):
    return [None] + sorted({round(b + d, 4) for b in bs for d in (-0.2, -0.0001, 0, 0.0001, 0.2)})


def all_versions():
    return [None, 1.0, 3.5, 99.0] + sorted({round(b + d, 2) for b in ALL for d in (-0.01, 0, 0.01)}) + [5, 6, 7, 8]


def samples(t, k):
    """values (python) for a keyword: what loads gives for its vocabulary samples"""
    key = (t, k)
    if key not in _s:
        out = []
        for shape, item, cls in V.slot_samples(t, k, True):
            r = impl.attempt(impl.loads, D.render([("block", t, [item])]), expand=False)
            if r[0] == "ok" and k in r[1] and r[1][k] not in out:
                out.append(r[1][k])
        _s[key] = out
    return _s[key]


_s = {}


def value_kinds(t, k, vs):
    """values which behave differently over the versions (their verdict vectors differ)"""
    seen, out = set(), []
    s = draft4.load(t)["properties"][k]
    nr = near(bounds_of(s))
    for c in samples(t, k) + c07.CANDS:
        vec = tuple(tuple(sorted({kw for _, kw in draft4.errors(draft4.lower(c), s, v)})) if draft4.available(s, v) else None for v in nr)
        if vec not in seen:
            seen.add(vec)
            out.append(c)
    return out


def skeleton(path, t):
    """(dict, the object of type t at the end of path inside it)"""
    s = lambda x: [space.SIMPLE[x]] if space.SIMPLE[x] else []
    it = ("block", t, s(t))
    for p in reversed(path):
        it = ("block", p, (s(p) if p != "symbolset" else []) + ([it] if it[1] in D.SINGLE else [("block", it[1], []), it]))
    d = impl.loads(D.render([it]))
    o = d
    for p in path[1:] + (t,):
        if path:
            o = o[p] if p in D.SINGLE else o[D.PLURAL[p]][1]
    if o["__type__"] != t:
        raise RuntimeError("path")
    return d, o


def cases(tier):
    th = tier == "thorough"
    out = []
    es = entries()
    for t, k, bs in es:
        out.append(("values", (t, k, bs)))
        out.append(("all-versions", (t, k, bs)))
        for path in space.parents_paths(t, 4):
            out.append(("context", (path, t, k, bs, th)))
    for t in V.TYPES:
        for k in V.slots(t):
            out.append(("slot", (t, k)))
        for v in all_versions():
            out.append(("export", (t, v)))
            out.append(("create", (t, v)))
    for v in all_versions():
        out.append(("cli", v))
        out.append(("kitchen", v))
    n = len(ops2())
    out += [("history2", (i, j)) for i in range(n) for j in range(n)]
    o3 = ops3(th)
    out += [("history3", (i, j, th)) for i in range(len(o3)) for j in range(len(o3))]
    if th:
        out += [("history4", (i, j)) for i in range(8) for j in range(8)]
    impl.warm()
    probes()
    return out


def step(group, case, acc):
    globals()["step_" + group.replace("-", "_")](case, acc)


_val = []


def shared():
    if not _val:
        _val.append(Validator())
    return _val[0]


def judge(d, v, acc, sig, validator=None, expected=None):
    if not validator:
        r = impl.attempt((shared()).validate, d, version=v)
    else:
        r = impl.attempt(validator.validate, d, version=v)
    acc.trans()
    acc.trace()
    acc.state((sig, v))
    if r[0] != "ok":
        acc.fail("raised|%s@%s" % (sig, v), "%s: %s" % r[1:])
        return
    exp = expected if expected is not None else draft4.verdict(d, v)
    acc.outcome("conforming" if not exp else "violations")
    x = draft4.disagreement(exp, c07.names(r[1]))
    if x:
        acc.fail("verdict|%s@%s" % (sig, v), x)


def put(d, o, k, c, vs, acc, sig):
    had = k in o
    old = o[k] if had else None
    o[k] = copy.deepcopy(c)
    for v in vs:
        judge(d, v, acc, sig)
    if had:
        o[k] = old
    else:
        del o[k]


def step_values(case, acc):
    t, k, bs = case
    d, o = skeleton((), t)
    for c in samples(t, k) + c07.CANDS:
        put(d, o, k, c, near(bs), acc, "%s.%s=%r" % (t, k, c))
    acc.sample("%s.%s %s" % case)


def step_all_versions(case, acc):
    t, k, bs = case
    d, o = skeleton((), t)
    for c in value_kinds(t, k, None)[:4]:
        put(d, o, k, c, all_versions(), acc, "%s.%s=%r all" % (t, k, c))


def step_context(case, acc):
    path, t, k, bs, th = case
    d, o = skeleton(path, t)
    for c in value_kinds(t, k, None) if not th else samples(t, k) + c07.CANDS:
        put(d, o, k, c, near(bs), acc, "%s.%s=%r" % ("/".join(path + (t,)), k, c))
    acc.sample("%s.%s %s" % ("/".join(path + (t,)), k, bs))


def step_slot(case, acc):
    t, k = case
    d, o = skeleton((), t)
    for c in samples(t, k)[:2] + ["nonsense value", {}]:
        put(d, o, k, c, (None, 4.0, 5.3, 6.1, 7.5, 8.0, 9.0), acc, "slot %s.%s=%r" % (t, k, c))


def step_kitchen(case, acc):
    for d, lab in kitchen():
        judge(d, case, acc, "kitchen " + lab)


_k = []


def kitchen():
    if not _k:
        _k.append((impl.loads(c07.NESTED), "nested"))
        for lab, doc in O.core():
            if lab.startswith("kitchen"):
                r = impl.attempt(impl.loads_auto, D.render(doc))
                if r[0] == "ok" and isinstance(r[1], dict):
                    _k.append((r[1], lab))
        for d, lab in probes():
            _k.append((d, "probe " + lab))
    return _k


# ------------------------------------------------------------------ exported schemas
def plainj(x):
    """plain copy of an exported schema (resolves lazy references)"""
    if isinstance(x, dict):
        return {k: plainj(x[k]) for k in x}
    if isinstance(x, list):
        return [plainj(v) for v in x]
    return x


def probe_values(t, v):
    """the annotated and some other keywords of a type with the values that tell versions apart"""
    out = []
    for u, k, bs in _ent():
        if u == t:
            out += [(k, c) for c in value_kinds(t, k, None)]
    return out


def _ent():
    if "e" not in _s:
        _s["e"] = entries()
    return _s["e"]


def step_export(case, acc):
    """the exported schema accepts exactly what the rule accepts"""
    t, v = case
    r = impl.attempt(Validator().get_versioned_schema, v, t)
    acc.trans()
    if r[0] != "ok":
        acc.fail("export raised|%s@%s" % (t, v), r[1:])
        return
    s = plainj(r[1])
    try:
        json.dumps(s)
    except Exception as e:
        acc.fail("export not JSON|%s@%s" % (t, v), e)
    acc.state(json.dumps(s, sort_keys=True, default=repr))
    n = 0
    for u in sorted(V.TYPES):
        for path in space.parents_paths(u, 2):
            if (path + (u,))[0] != t:
                continue
            pv = probe_values(u, v)
            d, o = skeleton(path, u)
            for k, c in pv:
                o2 = o.get(k)
                had = k in o
                o[k] = c
                j = draft4.lower(d)
                got = bool(draft4.errors(j, s, None))
                exp = bool(draft4.errors(j, draft4.load(t), v))
                acc.trace()
                n += 1
                if got != exp:
                    acc.fail("exported schema|%s@%s %s.%s=%r" % (t, v, "/".join(path + (u,)), k, c), "exported schema %s, the rule says %s" % ("rejects" if got else "accepts", "reject" if exp else "accept"))
                if had:
                    o[k] = o2
                else:
                    del o[k]
    acc.sample("%s@%s: %d probes" % (t, v, n))


def step_create(case, acc):
    t, v = case
    r = impl.attempt(impl.pub.create, t, v)
    acc.trans()
    acc.trace()
    props = draft4.load(t)["properties"]
    exp = {k for k, s in props.items() if "default" in s and draft4.available(s, v)} | {"__type__"}
    if r[0] != "ok":
        acc.fail("create raised|%s@%s" % case, r[1:])
    # a default beside a $ref may be ignored (draft 4)
    elif not {k for k in exp if "$ref" not in props.get(k, {})} <= set(r[1]) <= exp:
        acc.fail("create|%s@%s" % case, "keys %s, expected %s" % (sorted(set(r[1]) - exp), sorted(exp - set(r[1]))))
    acc.state(case)


def step_cli(case, acc):
    """mappyfile schema writes what get_versioned_schema returns"""
    from click.testing import CliRunner
    from mappyfile import cli
    tmp = tempfile.mkdtemp(prefix="mc09-")
    try:
        fn = os.path.join(tmp, "s.json")
        r = CliRunner().invoke(cli.main, ["schema", fn] + ([] if case is None else ["--version", str(case)]))
        acc.trans()
        acc.trace()
        if r.exit_code != 0:
            acc.fail("cli|%s" % case, "exit code %s: %r" % (r.exit_code, r.exception))
            return
        got = json.load(open(fn, encoding="utf-8"))
        exp = plainj(Validator().get_versioned_schema(case))
        if got != json.loads(json.dumps(exp)):
            acc.fail("cli|%s" % case, "the exported file differs from get_versioned_schema")
        acc.state(json.dumps(got, sort_keys=True))
    finally:
        shutil.rmtree(tmp)


# ------------------------------------------------------------------ histories
_pr = []


def probes():
    """a map and a layer with every annotated keyword of every object, each with a value that is fine when available"""
    if _pr:
        return _pr
    d = impl.loads(c07.NESTED)
    objs = {}

    def fill(o):
        t = o.get("__type__")
        if t not in V.VOCAB:
            return
        for u, k, bs in _ent():
            if u == t and k not in o:
                ok = [c for c in samples(t, k) if any(draft4.available(draft4.load(t)["properties"][k], v) and not draft4.errors(draft4.lower(c), draft4.load(t)["properties"][k], v) for v in near(bs))]
                if ok and not isinstance(ok[-1], (dict,)) and k not in D.OBJECT_LIST_KEYS:
                    o[k] = copy.deepcopy(ok[-1])
        for k in list(o):
            v = o[k]
            for x in v if isinstance(v, list) else [v]:
                if isinstance(x, dict):
                    fill(x)

    fill(d)
    _pr.append((d, "map"))
    l = impl.loads("LAYER TYPE POINT CLASS LABEL END STYLE END END END")
    fill(l)
    _pr.append((l, "layer"))
    return _pr


HV = (None, 5.4, 5.6, 6.0, 7.4, 7.6, 8.0, 8)


def ops2():
    out = []
    for v in HV:
        out += [("validate", 0, v), ("validate", 1, v), ("export", "map", v), ("export", "layer", v), ("module", 0, v)]
    return out


def ops3(th):
    out = []
    for v in (None, 5.4, 5.6, 7.6, 8.0, 8) if th else (None, 5.6, 7.6):
        out += [("validate", 0, v), ("export", "map", v), ("module", 1, v)] + ([("export", "layer", v)] if th else [])
    return out if th else out + [("create", "layer", 5.4), ("create", "layer", None)]


OPS4 = [("validate", 0, None), ("validate", 0, 5.6), ("validate", 0, 8.0), ("export", "map", None), ("export", "map", 5.6), ("export", "map", 8.0), ("module", 0, 7.6), ("export", "layer", 5.6)]
_exp = {}


def do(op, validator):
    if op[0] == "validate":
        return sorted(c07.names(validator.validate(probes()[op[1]][0], version=op[2])))
    if op[0] == "module":
        return sorted(c07.names(impl.pub.validate(probes()[op[1]][0], op[2])))
    if op[0] == "create":
        return json.dumps(impl.pub.create(op[1], op[2]))
    return json.dumps(plainj(validator.get_versioned_schema(op[2], op[1])), sort_keys=True)


def fresh(op):
    """the answer for the operation on its own: the model for validations, the answer of a fresh interpreter state for exports"""
    if op not in _exp:
        pid_r, pid_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pid_r)
                with os.fdopen(pid_w, "w") as f:
                    json.dump(do(op, Validator()), f)
            finally:
                os._exit(0)
        os.close(pid_w)
        with os.fdopen(pid_r) as f:
            _exp[op] = json.load(f)
        os.waitpid(pid, 0)
    return _exp[op]


def run_history(seq, acc):
    v = Validator()
    for i, op in enumerate(seq):
        e = fresh(op)
        r = impl.attempt(do, op, v)
        acc.trans()
        if r[0] != "ok":
            acc.fail("history raised|%r" % (seq[:i + 1],), r[1:])
            return
        if r[1] != e:
            acc.fail("history|%r" % (seq[:i + 1],), "the last call answers differently after the others: %s" % (diff_text(e, r[1]),))
            return
        if op[0] == "validate":
            x = draft4.disagreement(probe_verdict(op[1], op[2]), r[1])
            if x:
                acc.fail("history verdict|%r" % (seq[:i + 1],), x)
                return
    acc.trace()
    acc.state(seq)


_pv = {}


def probe_verdict(i, v):
    if (i, v) not in _pv:
        _pv[(i, v)] = draft4.verdict(probes()[i][0], v)
    return _pv[(i, v)]


def diff_text(a, b):
    if isinstance(a, list):
        return "messages for %s, alone %s" % (b, a)
    return "results of length %d, alone %d" % (len(b), len(a))


def step_history2(case, acc):
    o = ops2()
    run_history((o[case[0]], o[case[1]]), acc)
    acc.sample("%s, %s" % (o[case[0]], o[case[1]]))


def step_history3(case, acc):
    o = ops3(case[2])
    for k in range(len(o)):
        run_history((o[case[0]], o[case[1]], o[k]), acc)
    acc.sample("%s, %s, ..." % (o[case[0]], o[case[1]]))


def step_history4(case, acc):
    for k in range(8):
        for l in range(8):
            run_history(tuple(OPS4[i] for i in (case[0], case[1], k, l)), acc)
