"""Lexical classes MapServer requires (C03): checks an AST read by mc/reader.py, keyword by keyword."""
from __future__ import annotations
import re
from . import vocab as V
from .roundtrip import words

BIND = re.compile(r"\[[A-Za-z0-9_\xc0-\xff\-:]+\]")
NUMK = ("int", "num")


def kinds(t, k):
    out = set()
    def add(a):
        out.add(a["k"])
        for x in a.get("items", []):
            for y in (x if isinstance(x, list) else [x]):
                if isinstance(y, dict):
                    add(y)
    for a in V.slot(t, k)["alts"]:
        add(a)
    return out


_k = {}


def exprcap(t, k):
    return (t, k) in V.EXPR_KEYS or (t, k) in (("style", "geomtransform"), ("layer", "geomtransform"))


def slot_kinds(t, k):
    if (t, k) not in _k:
        _k[(t, k)] = kinds(t, k)
    return _k[(t, k)]


def looks_expr(s):
    s = s.strip()
    return s.startswith("(") and s.endswith(")") or s.upper().startswith("NOT ") and s.endswith(")")


def problem(t, k, v):
    """None if value v (AST) is written in the class required for keyword k of object type t, else text"""
    ks = slot_kinds(t, k)
    kind, s = v[0], v[1] if isinstance(v[1], str) else None
    if kind == "list":
        for x in v[1]:
            if x[0] not in NUMK + ("bind", "hex", "str", "rtvar"):
                return "%s inside a list of values" % (x,)
            if x[0] == "str" and not ({"str", "hex"} & ks):
                return "quoted %r in a list of numbers" % x[1]
        return None
    if kind == "str" or kind == "hex":
        if kind == "hex":
            return None
        if s.lower() in words(t, k) and s.lower() != "end" and k != "compop" and not any(a["k"] == "strpat" for a in V.slot(t, k)["alts"]):
            return "enumerated value %r is quoted" % s
        if exprcap(t, k) and k not in ("geomtransform",) and looks_expr(s):
            return "expression %r is quoted" % s
        if "bind" in ks and BIND.fullmatch(s) and k != "text":
            return "attribute binding %r is quoted" % s
        if exprcap(t, k) and len(s) > 1 and s[0] == "/" and (s[-1] == "/" or s[-2:] == "/i") and k not in ("geomtransform",):
            return "regular expression %r is quoted" % s
        if exprcap(t, k) and (s.endswith("'i") and s.startswith("'") or s.endswith('"i') and s.startswith('"')):
            return "case-insensitive string %r is quoted" % s
        if k == "expression" and s[:1] == "{" and s[-1:] == "}":
            return "list expression %r is quoted" % s
        return None
    if kind == "word":
        if s.lower() in words(t, k):
            return None
        return "string %r is not quoted" % s
    if kind == "bind":
        return None
    if kind == "expr":
        return None if exprcap(t, k) else "parenthesised text outside an expression keyword is not quoted"
    if kind in ("regex", "regexi", "istr"):
        return None if exprcap(t, k) else "%r outside an expression keyword is not quoted" % s
    if kind == "lexpr":
        return None if exprcap(t, k) else "%r outside an expression keyword is not quoted" % s
    if kind in NUMK:
        return None
    if kind == "bool":
        return None
    if kind == "rtvar":
        return "string %r is not quoted" % s if "str" in ks else None
    return "unexpected token %r" % (v,)


def check(items, t, path="$"):
    """first lexical problem in the items of a block of type t"""
    slots = V.VOCAB[t]["slots"]
    for it in items:
        kd = it[0]
        if kd == "attr":
            if it[1] in slots and slots[it[1]]["kind"] == "attr":
                p = problem(t, it[1], it[2])
                if p:
                    return "%s.%s.%s: %s" % (path, t, it[1], p)
        elif kd == "rep":
            if it[2][0] not in ("str", "hex"):
                return "%s.%s.%s: %r is not quoted" % (path, t, it[1], it[2][1])
        elif kd == "block":
            p = check(it[2], it[1], path + "." + t)
            if p:
                return p
        elif kd == "kv":
            for a, b in it[2]:
                for x in (a, b):
                    if x[0] != "str":
                        return "%s.%s.%s: %r is not quoted" % (path, t, it[1], x[1])
        elif kd == "config":
            for x in it[1:]:
                if x[0] not in ("str", "hex"):
                    return "%s.%s.config: %r is not quoted" % (path, t, x[1])
        elif kd == "proj" and it[1] != "AUTO":
            for x in it[1]:
                if x[0] not in ("str", "hex"):
                    return "%s.%s.projection: %r is not quoted" % (path, t, x[1])
    return None


def check_doc(doc):
    for it in doc:
        if it[0] == "block":
            p = check(it[2], it[1])
        else:
            p = check([it], "layer") if it[0] == "kv" else None
        if p:
            return p
    return None
