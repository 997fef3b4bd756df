"""Content equality up to what printing may change (C01), and small dictionary walkers."""
from __future__ import annotations
from . import vocab as V, doc as D

_words = {}


def words(t, k):
    key = (t, k)
    if key not in _words:
        s = V.VOCAB.get(t, {"slots": {}})["slots"].get(k)
        _words[key] = {w.lower() for w in V.enum_words(t, k)} if s and s["kind"] == "attr" else set()
    return _words[key]


def stringy(t, k):
    """the schema types the keyword as a string (in one of its alternatives)"""
    s = V.VOCAB.get(t, {"slots": {}})["slots"].get(k)
    return bool(s) and s["kind"] == "attr" and any(a["k"] in ("str", "strpat", "charref") for a in s["alts"])


def string_only(t, k):
    s = V.VOCAB.get(t, {"slots": {}})["slots"].get(k)
    return bool(s) and s["kind"] == "attr" and all(a["k"] in ("str", "strpat", "charref", "expr", "regex", "bind", "hex") for a in s["alts"]) and stringy(t, k)


def leaf_ok(a, b, t, k):
    if D.canon(a) == D.canon(b):
        return True
    if isinstance(a, str) and isinstance(b, str):
        return a.lower() == b.lower() and a.lower() in words(t, k)
    if isinstance(a, (int, float)) and not isinstance(a, bool) and isinstance(b, str) and stringy(t, k):
        try:
            return float(b) == float(a)
        except ValueError:
            return False
    return False


def diff(a, b, t=None, k=None, path="$", hidden=("__type__",)):
    """None or the first place where b is not a with the permitted changes; key order counts"""
    if isinstance(a, dict):
        if not isinstance(b, dict):
            return "%s: %r vs %r" % (path, a, b)
        ka = [x for x in a if not is_hidden(x) or x in hidden]
        kb = [x for x in b if not is_hidden(x) or x in hidden]
        if [x for x in ka if x != "__type__"] != [x for x in kb if x != "__type__"] or set(ka) != set(kb):
            return "%s: keys %r vs %r" % (path, ka, kb)
        ty = a.get("__type__", t) if "__type__" in a else None
        for x in ka:
            r = diff(a[x], b[x], ty, x, path + "." + str(x), hidden)
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if not isinstance(b, (list, tuple)) or len(a) != len(b):
            return "%s: %r vs %r" % (path, a, b)
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, None, None, "%s[%d]" % (path, i), hidden)
            if r:
                return r
        return None
    return None if leaf_ok(a, b, t, k) else "%s: %r vs %r" % (path, a, b)


def is_hidden(k):
    return isinstance(k, str) and k.startswith("__") and k.endswith("__")


def any_string(d, f):
    if isinstance(d, dict):
        return any((isinstance(k, str) and f(k)) or any_string(v, f) for k, v in d.items())
    if isinstance(d, (list, tuple)):
        return any(any_string(v, f) for v in d)
    return isinstance(d, str) and f(d)


def both_quotes(text):
    return '"' in text


LISTKEYS = {v: k for k, v in D.PLURAL.items()}


def unknown_keywords(d, out=None):
    """[(type, key)] not in the vocabulary of their object"""
    out = [] if out is None else out
    if isinstance(d, (list, tuple)):
        for x in d:
            unknown_keywords(x, out)
        return out
    if isinstance(d, dict):
        t = d.get("__type__")
        if t in V.VOCAB:
            for k, v in d.items():
                if is_hidden(k):
                    continue
                if k not in V.VOCAB[t]["slots"]:
                    out.append((t, k))
                if isinstance(v, (dict, list)):
                    unknown_keywords(v, out)
    return out
