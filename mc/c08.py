"""C08: recorded positions are those of the keywords and values in the text; validation messages point at the offending keyword."""
from __future__ import annotations
import itertools
from . import impl, space, options as O, doc as D, vocab as V, draft4, reader, roundtrip as R, c05, c07
from .vocab import S, W

PROP = "C08"
BOUNDS = {"quick": "core documents, multi-line string documents, large documents: every gap x 14 separators and all gaps at once x 32 separators x 3 letter cases; "
                   "every expressible single fault of every slot of every object type x 32 all-gap layouts x 2 places in the block; every object of a 45-object nested map x every fault class x 7 layouts; "
                   "all pairs over ~90 fault sites x 2 layouts; two-root documents",
          "thorough": "as quick with 32 separators per gap, gap pairs, pairs over ~200 fault sites"}
ASSUMPTIONS = ["include-free text; one column per character, a line ends at \\n (CRLF: the CR belongs to the line it ends)",
               "an expression is one value whose recorded position may be anywhere inside it; PROJECTION, POINTS and PATTERN record an ordered selection of their values' positions",
               "unknown and missing keywords are object-level errors",
               "for a repeated keyword an error on one value must be located at that occurrence, an error on the whole at any of them"]
HEAVY = ("gap", "nested", "pairs")
CASE_LIMIT = 300.0
GAPSEPS = [" ", "\t", "\f", "\n", "\r\n", "\n\n\n", "\r\n\r\n  ", " # c\n", " # c\r\n", "/* c */", " /* l1\n l2\n*/ ", " /*\r\n*/\r\n", "", " # \u00e9\u2192 %s [x] {y}\n"]


# ------------------------------------------------------------------ expected positions
class Pos:
    """positions of one object: self, keys {key: [(pos, [value positions], kind)]}, singles, lists"""
    __slots__ = ("pos", "keys", "children", "values", "type")

    def __init__(self, type_, pos):
        self.type, self.pos, self.keys, self.children, self.values = type_, pos, {}, {}, None


def expect(doc, toks, pos):
    """[Pos] for the roots of doc"""
    by = {}
    for t, p in zip(toks, pos):
        by.setdefault(t.path, []).append((t, p))

    def values(path):
        vs = [(t, p) for t, p in by[path] if t.kind == "val"]
        if vs and vs[0][0].role == "exprpart":
            end = vs[-1][1]
            return ("range", vs[0][1], (end[0], end[1] + len(vs[-1][0].text)))
        # bindings and list expressions are several tokens: one position within each
        return ("exact", [(p, (p[0], p[1] + (len(t.text) if t.text[:1] in "[{" else 1))) for t, p in vs])

    def block(it, path):
        if it[0] == "kv":
            o = Pos(it[1], by[path][0][1])
            o.values = [p for i in range(len(it[2])) for _, p in by[path + (i,)]]
            return o
        o = Pos(it[1], by[path][0][1])
        for i, sub in enumerate(it[2]):
            sp = path + (i,)
            k = sub[0]
            if k in ("block", "kv"):
                c = block(sub, sp)
                if k == "kv" or sub[1] in D.SINGLE:
                    o.children[sub[1]] = c
                else:
                    o.children.setdefault(D.PLURAL[sub[1]], []).append(c)
                continue
            kp = by[sp][0][1]
            if k == "config":
                o.keys.setdefault("config", {})[D.vexp(sub[1]).lower()] = (kp, values(sp))
            elif k == "rep":
                o.keys.setdefault(sub[1].lower(), []).append((kp, values(sp)))
            elif k == "points":
                o.keys.setdefault("points", []).append((kp, ("some", [p for t, p in by[sp] if t.kind == "val"])))
            elif k in ("proj", "pattern"):
                o.keys["projection" if k == "proj" else k] = (kp, ("some", [p for t, p in by[sp] if t.kind == "val"]))
            else:
                o.keys[sub[1].lower()] = (kp, values(sp))
        if isinstance(o.keys.get("points"), list) and len(o.keys["points"]) == 1:
            o.keys["points"] = o.keys["points"][0]
        return o

    return [block(it, (i,)) for i, it in enumerate(doc)]


def lc(d):
    return (d["line"], d["column"])


def check_entry(e, a, where):
    """a: recorded entry of a keyword; e = (pos, values)"""
    if isinstance(e, list):
        if not isinstance(a, list) or len(a) != len(e):
            return "%s: %r recorded for %d occurrences" % (where, a, len(e))
        for i, (x, y) in enumerate(zip(e, a)):
            r = check_entry(x, y, "%s[%d]" % (where, i))
            if r:
                return r
        return None
    if not isinstance(a, dict) or "line" not in a or "column" not in a:
        return "%s: no position recorded: %r" % (where, a)
    if lc(a) != e[0]:
        return "%s: keyword recorded at %s, is at %s" % (where, lc(a), e[0])
    vs = [tuple(v) for v in a.get("values", [])]
    kind = e[1][0]
    if kind == "exact" and not (len(vs) == len(e[1][1]) and all(lo <= v < hi for v, (lo, hi) in zip(vs, e[1][1]))):
        return "%s: values recorded at %s, are at %s" % (where, vs, [lo for lo, _ in e[1][1]])
    if kind == "range" and not (vs and all(e[1][1] <= v < e[1][2] for v in vs) and vs == sorted(vs)):
        return "%s: values recorded at %s, are within %s-%s" % (where, vs, e[1][1], e[1][2])
    if kind == "some":
        left = iter(e[1][1])
        if bool(vs) != bool(e[1][1]) or vs and vs[0] != e[1][1][0] or not all(v in left for v in vs):
            return "%s: values recorded at %s, are at %s" % (where, vs, e[1][1])
    return None


def check_obj(o, d, where):
    p = d.get("__position__")
    if not isinstance(p, dict) or "line" not in p or "column" not in p:
        return "%s: no position recorded" % where
    if lc(p) != o.pos:
        return "%s: opening keyword recorded at %s, is at %s" % (where, lc(p), o.pos)
    if o.values is not None:
        vs = [tuple(v) for v in p.get("values", [])]
        return None if vs == o.values else "%s: keys and values recorded at %s, are at %s" % (where, vs, o.values)
    got = {k for k in p if k not in ("line", "column")}
    if got != set(o.keys):
        return "%s: positions recorded for %s, keywords are %s" % (where, sorted(got), sorted(o.keys))
    for k, e in o.keys.items():
        if k == "config":
            if not isinstance(p[k], dict) or set(p[k]) != set(e):
                return "%s.config: positions %r, keys %r" % (where, p[k], sorted(e))
            for s, x in e.items():
                r = check_entry(x, p[k][s], "%s.config.%s" % (where, s))
                if r:
                    return r
            continue
        r = check_entry(e, p[k], where + "." + k)
        if r:
            return r
    for k, c in o.children.items():
        if isinstance(c, list):
            if len(d.get(k, [])) != len(c):
                return "%s.%s: %d objects, %d written" % (where, k, len(d.get(k, [])), len(c))
            for i, x in enumerate(c):
                r = check_obj(x, d[k][i], "%s.%s[%d]" % (where, k, i))
                if r:
                    return r
        else:
            r = check_obj(c, d[k], where + "." + k)
            if r:
                return r
    return None


def check_all(objs, d):
    ds = d if isinstance(d, list) else [d]
    if len(ds) != len(objs):
        return "%d roots, %d written" % (len(ds), len(objs))
    for i, (o, x) in enumerate(zip(objs, ds)):
        r = check_obj(o, x, "root%d" % i if len(ds) > 1 else "$")
        if r:
            return r
    return None


# ------------------------------------------------------------------ expected error locations
def locations(objs, roots):
    """[(names, acceptable positions, path)] of every violation of the expected dictionaries"""
    out = []
    for o, d in zip(objs, roots):
        j = draft4.lower(d)
        for path, kw in draft4.errors(j, draft4.load(draft4.root_name(j))):
            opath, names, is_obj = draft4.naming(j, path)
            cur = o
            rest = list(path)
            node = j
            # walk to the enclosing object
            for i, p in enumerate(opath):
                if isinstance(p, str):
                    node = cur.children.get(p)
                    if isinstance(node, Pos):
                        cur = node
                else:
                    cur = node[p]
            rest = list(path[len(opath):])
            if is_obj or not rest:
                acc = [cur.pos]
            elif cur.values is not None:
                acc = [cur.pos] + cur.values
            else:
                acc = entry_positions(cur, rest)
            out.append((names, acc, path))
    return out


def entry_positions(o, rest):
    e = o.keys.get(rest[0])
    if e is None:
        return [o.pos]
    if rest[0] == "config":
        if len(rest) > 1 and rest[1] in e:
            return [e[rest[1]][0]]
        return [x[0] for x in e.values()]
    if isinstance(e, list):
        if len(rest) > 1 and isinstance(rest[1], int) and rest[1] < len(e):
            return [e[rest[1]][0]]
        return [x[0] for x in e]
    return [e[0]]


def check_messages(exp, msgs):
    got = []
    for m in msgs:
        n = m["message"].split("Invalid value in ", 1)
        if len(n) != 2:
            return "unexpected message %r" % (m,)
        if "line" not in m or "column" not in m:
            return "message without a location: %r" % (m,)
        got.append((n[1], (m["line"], m["column"])))
    for names, acc, path in exp:
        if not any(n in names and p in acc for n, p in got):
            return "no message %s at %s for the violation at %s; messages: %s" % ("/".join(names), acc, "/".join(map(str, path)), got)
    allowed = {(n, p) for names, acc, _ in exp for n in names for p in acc}
    for g in got:
        if g not in allowed:
            return "message %s at %s does not point at a violation" % g
    return None


# ------------------------------------------------------------------ cases
ML = ["two\nlines", "\n", "a\r\nb", "x\n\n  y\n", "# not\n# a comment", "/* no\ncomment */", "é\nü"]


def ml_docs():
    out = []
    for s in ML:
        for p, f in space.KPOS:
            out.append(("ml %s %r" % (p, s), [("block", "map", [("attr", "name", S(s)), ("attr", "debug", W("ON"))])] if p == "map" else f(S(s))))
        out.append(("ml proj %r" % s, [("block", "layer", [("attr", "name", S(s)), ("proj", [S(s), S("b" + s)]), ("attr", "type", W("POINT"))])]))
        out.append(("ml two %r" % s, [("block", "layer", [("attr", "name", S(s)), ("attr", "group", S(s + s)), ("block", "class", [("attr", "name", S(s)), ("attr", "title", S("x"))]), ("attr", "type", W("POINT"))])]))
    return out


def docs(tier):
    th = tier == "thorough"
    core = O.core()
    if not th:
        core = [c for c in core if not c[0].startswith("kitchen") or c[0].endswith("#0")]
    return core + ml_docs() + [c for g, c in space.documents("E", False) if c[0].startswith(("dup", "points", "config2", "kvcase", "blocks3"))]


def cases(tier):
    th = tier == "thorough"
    out = [("gap" if len(D.tokens(c[1])) > 60 else "gaps", (c, th)) for c in docs(tier)]
    out += [("plain", c) for g, c in space.documents("ABCDFGKX" if th else "ABFG", False)]
    for t in V.TYPES:
        for k, v in c07.faults(t):
            for place in ("first", "last"):
                if fault_item(t, k, v) is not None or v is c07.MISSING:
                    out.append(("fault", (t, k, repr(v) if v is c07.MISSING else v, place)))
    ast = nested()
    n = len(list(ast_objects(ast)))
    out += [("nested", i) for i in range(n)]
    st = sites(ast, 5 if th else 2)
    _st[:] = st
    out += [("pairs", i) for i in range(len(st))]
    for i, j in itertools.product(range(len(ROOTS)), repeat=2):
        out.append(("roots", (i, j)))
    impl.warm()
    return out


def step(group, case, acc):
    globals()["step_" + {"gap": "gaps"}.get(group, group)](case, acc)


def load(text, comments=False):
    return impl.loads(text, position=True, comments=comments, expand="include" not in text.lower())


def check_text(doc, tk, seps, tail, acc, sig, comments=False, texts=None, loader=load, validate=False, expected=None):
    if texts:
        tk = [D.Tok(x, t.kind, t.path, t.depth, t.role, t.v) for x, t in zip(texts, tk)]
    text, pos = D.assemble(tk, seps, tail)
    r = impl.attempt(loader, text) if not comments else impl.attempt(loader, text, True)
    acc.trans()
    if r[0] != "ok":
        acc.outcome("not accepted by loads")
        return None
    acc.trace()
    acc.state(text)
    objs = expect(doc, tk, pos)
    x = check_all(objs, r[1])
    if x:
        acc.fail("position|" + sig, x, text=text)
        return None
    if validate:
        acc.trans()
        m = impl.attempt(impl.validate, r[1])
        if m[0] != "ok":
            acc.fail("validate raised|" + sig, m[1:], text=text)
            return None
        exp = locations(objs, expected)
        acc.outcome("faulty document" if exp else "conforming document")
        x = check_messages(exp, m[1])
        if x:
            acc.fail("location|" + sig, x, text=text)
            return None
    return True


def all_gaps(tk, s):
    return [s if c05.sep_ok(tk, g, s) else " " for g in range(len(tk))]


def step_plain(case, acc):
    lab, doc = case
    tk = c05.toks(doc)
    for nl in ("\n", "\r\n"):
        check_text(doc, tk, D.default_seps(tk, nl=nl), nl, acc, "plain %s %r" % (lab, nl))
    check_text(doc, tk, [" "] * len(tk), " ", acc, "plain one line " + lab)
    acc.sample(D.render(doc))


def step_gaps(case, acc):
    (lab, doc), th = case
    tk = c05.toks(doc)
    d = c05.default(tk)
    n = len(tk)
    n0 = len(acc.viol)
    if check_text(doc, tk, d, "", acc, lab) is None:
        return
    for cn in ("upper", "lower", "alt"):
        cf = c05.CASES[cn]
        texts = [cf(t.text) if t.kind in ("open", "end") or t.kind == "key" and t.role != "kvpair" else t.text for t in tk]
        for s in c05.SEPS:
            check_text(doc, tk, all_gaps(tk, s), s, acc, "%s all gaps %r %s" % (lab, s, cn), comments=cn == "lower", texts=texts)
    for g in range(n):
        for s in (c05.SEPS if th else GAPSEPS):
            if c05.sep_ok(tk, g, s):
                check_text(doc, tk, d[:g] + [s] + d[g + 1:], "", acc, "%s gap %d %r" % (lab, g, s))
        if len(acc.viol) > n0 + 5:
            return
    acc.sample(D.render(doc))


# ------------------------------------------------------------------ faults written in the text
def value_ast(v):
    """AST value of a python value, if it can be written as the value of an ordinary keyword"""
    if isinstance(v, bool):
        return ("bool", str(v).upper())
    if isinstance(v, int):
        return ("int", str(v))
    if isinstance(v, float):
        return ("num", repr(v)) if abs(v) < 1e16 else None
    if isinstance(v, str):
        return None if v.startswith(("[", "(", "/")) else ("hex", v) if v.startswith("#") and len(v) in (7, 9) else S(v)
    if isinstance(v, list) and len(v) > 1 and all(isinstance(x, (int, float)) and not isinstance(x, bool) for x in v) and len(v) in (2, 3, 4, 6):
        return ("list", [value_ast(x) for x in v])
    return None


def fault_item(t, k, v):
    s = V.slot(t, k) if k in V.VOCAB[t]["slots"] else None
    kd = s["kind"] if s else "attr"
    if v is c07.MISSING or k.startswith("__") or k in ("layers", "classes"):
        return None
    if kd in ("attr",) and k not in D.BLOCK_TYPES:
        a = value_ast(v)
        return ("attr", k, a) if a else None
    if kd == "points" and isinstance(v, list) and v and all(isinstance(x, list) and len(x) == 2 and not isinstance(x[0], (list, str)) for x in v):
        return ("points", [(str(a), str(b)) for a, b in v])
    return None


def with_fault(items, t, k, v, place):
    """items of a block with the fault written into it"""
    if v is c07.MISSING:
        return [it for it in items if not (it[0] == "attr" and it[1] == k)]
    it = fault_item(t, k, v)
    if it is None:
        return None
    rest = [x for x in items if not (x[0] in ("attr", "rep") and x[1] == k or x[0] == it[0] == "points")]
    return [it] + rest if place == "first" else rest + [it]


def usable(doc, acc):
    tk = c05.toks(doc)
    exp = D.expected(doc)
    return tk, exp if isinstance(exp, list) else [exp]


def step_fault(case, acc):
    t, k, v, place = case
    if v == repr(c07.MISSING):
        v = c07.MISSING
    s1 = space.SIMPLE[t] if space.SIMPLE[t][1] != k else space.SIMPLE2[t]
    items = [s1] + ([("attr", "type", W("POINT"))] if t == "layer" and k != "type" else [])
    items = with_fault(items, t, k, v, place)
    doc = [("block", t, items)]
    tk, exp = usable(doc, acc)
    lab = "fault %s.%s=%r %s" % (t, k, v, place)
    if check_text(doc, tk, c05.default(tk), "\n", acc, lab, validate=True, expected=exp) is None:
        return
    for s in c05.SEPS:
        check_text(doc, tk, all_gaps(tk, s), s, acc, "%s %r" % (lab, s), comments=place == "last", validate=True, expected=exp)
    # the same document as the second root of a file
    two = [("block", "class", [("attr", "name", S("c\nd"))])] + doc
    tk, exp = usable(two, acc)
    check_text(two, tk, c05.default(tk), "\n", acc, lab + " second root", validate=True, expected=exp)
    acc.sample(D.render(doc))


_n = []
_st = []


def nested():
    if not _n:
        _n.append(reader.read(c07.NESTED))
    return _n[0]


def ast_objects(doc, path=()):
    for i, it in enumerate(doc):
        if it[0] == "block" and it[1] in V.VOCAB:
            yield path + (i,)
            yield from ast_objects(it[2], path + (i,))


def ast_get(doc, path):
    it = doc[path[0]]
    for p in path[1:]:
        it = it[2][p]
    return it


def ast_replace(doc, path, items):
    """doc with the items of the block at path replaced"""
    if not path:
        return items
    i = path[0]
    it = doc[i]
    return list(doc[:i]) + [(it[0], it[1], ast_replace(it[2], path[1:], items))] + list(doc[i + 1:])


NLAYOUTS = [("lines", None), ("crlf", None), ("one line", " "), ("all lines", "\n"), ("crlf tabs", "\r\n\t"), ("comments", " # c 'x\r\n"), ("ccomments", " /* a\n b */ ")]


def layouts(tk):
    for name, s in NLAYOUTS:
        if name == "lines":
            yield name, D.default_seps(tk), "\n"
        elif name == "crlf":
            yield name, D.default_seps(tk, indent="\t", nl="\r\n"), "\r\n"
        else:
            yield name, all_gaps(tk, s), s


def step_nested(case, acc):
    ast = nested()
    p = list(ast_objects(ast))[case]
    it = ast_get(ast, p)
    t = it[1]
    for k, v in c07.faults(t):
        for place in ("first", "last"):
            items = with_fault(it[2], t, k, v, place)
            if items is None or v is c07.MISSING and place == "last":
                continue
            doc = ast_replace(ast, p, items)
            tk, exp = usable(doc, acc)
            for j, (name, seps, tail) in enumerate(layouts(tk)):
                if j > 1 and hash_skip(k, v, j):
                    continue
                if check_text(doc, tk, seps, tail, acc, "nested %s %s=%r %s %s" % ("/".join(map(str, p)), k, v, place, name), validate=True, expected=exp) is None:
                    break
    acc.sample("%s %s" % (p, t))


def hash_skip(k, v, j):
    """the further layouts go round robin over the faults (deterministic)"""
    return (len(k) + len(repr(v))) % 5 != j - 2


def sites(ast, per):
    out = []
    for p in ast_objects(ast):
        t = ast_get(ast, p)[1]
        seen = set()
        n = 0
        for k, v in [("foo", 1)] + c07.few(t):
            if n >= per or with_fault(ast_get(ast, p)[2], t, k, v, "last") is None or k in seen or k.startswith("__"):
                continue
            seen.add(k)
            n += 1
            out.append((p, t, k, v))
    return out


def step_pairs(case, acc):
    ast = nested()
    p, t, k, v = _st[case]
    one = ast_replace(ast, p, with_fault(ast_get(ast, p)[2], t, k, v, "last"))
    for q, u, m, w in _st[case + 1:]:
        if q[:len(p)] == p and v is c07.MISSING:
            continue  # the removal moved the inner paths
        doc = ast_replace(one, q, with_fault(ast_get(one, q)[2], u, m, w, "last"))
        tk, exp = usable(doc, acc)
        lab = "pair %s %s=%r %s %s=%r" % (p, k, v, q, m, w)
        check_text(doc, tk, D.default_seps(tk, indent="\t", nl="\r\n"), "\n", acc, lab, validate=True, expected=exp)
    acc.sample(repr(_st[case]))


ROOTS = [[("block", "layer", [("attr", "name", S("a\nb")), ("attr", "type", W("POINT"))])], [("block", "layer", [("attr", "foo", ("int", "1"))])], [("block", "class", [("attr", "status", S("x"))])],
         [("block", "map", [("attr", "size", ("list", [("int", "1"), ("int", "-2")])), ("block", "web", [("attr", "x", ("int", "1"))])])], [("kv", "metadata", [(S("a"), S("b\nc"))])],
         [("block", "symbolset", [("block", "symbol", [("attr", "type", S("nope"))])])], [("block", "style", [("attr", "width", S("w")), ("pattern", [("1", "2")])])]]


def step_roots(case, acc):
    doc = ROOTS[case[0]] + ROOTS[case[1]]
    tk, exp = usable(doc, acc)
    for name, seps, tail in layouts(tk):
        check_text(doc, tk, seps, tail, acc, "roots %s %s" % (case, name), validate=True, expected=exp)
    acc.sample(D.render(doc))
