"""A small JSON-schema draft 4 interpreter over the frozen copy of the published schemas (spec/schemas).

Written from the draft 4 specification; does not use jsonschema, jsonref or mappyfile.  Also implements
the documented version rule: an annotated property or alternative is available for minVersion <= v <= maxVersion.
"""
from __future__ import annotations
import json, os, re
from functools import lru_cache

FOLDER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "schemas")


@lru_cache(None)
def load(name):
    if not name.endswith(".json"):
        name += ".json"
    return json.load(open(os.path.join(FOLDER, name), encoding="utf-8"))


def has(name):
    return os.path.exists(os.path.join(FOLDER, name + ".json"))


def is_type(x, t):
    if t == "object":
        return isinstance(x, dict)
    if t == "array":
        return isinstance(x, list)
    if t == "string":
        return isinstance(x, str)
    if t == "boolean":
        return isinstance(x, bool)
    if t == "null":
        return x is None
    if t == "integer":
        return isinstance(x, int) and not isinstance(x, bool)
    if t == "number":
        return isinstance(x, (int, float)) and not isinstance(x, bool)
    raise ValueError(t)


def equal(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    return a == b


def available(s, v):
    """documented version rule for one schema entry"""
    if v is None or not isinstance(s, dict):
        return True
    md = s.get("metadata")
    if isinstance(md, dict):
        if "minVersion" in md and v < md["minVersion"] or "maxVersion" in md and v > md["maxVersion"]:
            return False
    if "$ref" in s:
        # the annotation of the referenced schema applies as well
        return available(load(s["$ref"]), v)
    return True


def errors(x, s, v=None, path=()):
    """[(path, keyword)] of every violation"""
    if "$ref" in s:
        return errors(x, load(s["$ref"]), v, path)
    out = []
    add = lambda kw, p=path: out.append((p, kw))
    if "type" in s:
        ts = s["type"] if isinstance(s["type"], list) else [s["type"]]
        if not any(is_type(x, t) for t in ts):
            add("type")
    if "enum" in s and not any(equal(x, e) for e in s["enum"]):
        add("enum")
    if is_type(x, "number"):
        if "minimum" in s and (x < s["minimum"] or s.get("exclusiveMinimum") and x == s["minimum"]):
            add("minimum")
        if "maximum" in s and (x > s["maximum"] or s.get("exclusiveMaximum") and x == s["maximum"]):
            add("maximum")
    if isinstance(x, str):
        if "minLength" in s and len(x) < s["minLength"]:
            add("minLength")
        if "maxLength" in s and len(x) > s["maxLength"]:
            add("maxLength")
        if "pattern" in s and not re.search(s["pattern"], x):
            add("pattern")
    if isinstance(x, list):
        if "minItems" in s and len(x) < s["minItems"]:
            add("minItems")
        if "maxItems" in s and len(x) > s["maxItems"]:
            add("maxItems")
        it = s.get("items")
        if isinstance(it, dict):
            for i, y in enumerate(x):
                out += errors(y, it, v, path + (i,))
        elif isinstance(it, list):
            for i, y in enumerate(x):
                if i < len(it):
                    out += errors(y, it[i], v, path + (i,))
                elif s.get("additionalItems") is False:
                    add("additionalItems")
                    break
                elif isinstance(s.get("additionalItems"), dict):
                    out += errors(y, s["additionalItems"], v, path + (i,))
    if isinstance(x, dict):
        props = {k: p for k, p in s.get("properties", {}).items() if available(p, v)}
        for k in s.get("required", []):
            if k not in x:
                add("required")
        for k, y in x.items():
            known = False
            if k in props:
                known = True
                out += errors(y, props[k], v, path + (k,))
            for pat, ps in s.get("patternProperties", {}).items():
                if re.search(pat, k):
                    known = True
                    out += errors(y, ps, v, path + (k,))
            if not known:
                ap = s.get("additionalProperties", True)
                if ap is False:
                    add("additionalProperties")
                elif isinstance(ap, dict):
                    out += errors(y, ap, v, path + (k,))
    for kw in ("oneOf", "anyOf", "allOf"):
        if kw in s:
            alts = [a for a in s[kw] if available(a, v)]
            res = [errors(x, a, v, path) for a in alts]
            n = sum(1 for r in res if not r)
            if kw == "oneOf" and n != 1 or kw == "anyOf" and n == 0:
                add(kw)
            if kw == "allOf":
                for r in res:
                    out += r
    return out


def lower(x):
    """the lower-cased JSON form"""
    if isinstance(x, dict):
        return {k.lower(): lower(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [lower(v) for v in x]
    if isinstance(x, str):
        return x.lower()
    return x


def root_name(d):
    t = str(d.get("__type__", "map")).lower()
    return t if has(t) else "map"


def naming(x, path):
    """(path of the enclosing object, acceptable names, is object level) of the error at path: the keyword
    (or the key of its pair, e.g. in CONFIG), or the type of the object"""
    node, obj, opath, keys = x, x, (), []
    for i, p in enumerate(path):
        node = node[p]
        if isinstance(node, dict) and "__type__" in node:
            obj, opath, keys = node, path[:i + 1], []
        elif isinstance(p, str):
            keys.append(p)
    return opath, tuple(k.upper() for k in keys) or (str(obj.get("__type__", "?")).upper(),), not keys


def verdict(d, version=None, schema=None):
    """{(object path, names, is_object_level)} for one root dictionary"""
    j = lower(d)
    return {naming(j, p) for p, _ in errors(j, load(schema or root_name(j)), version)}


def disagreement(expected, names):
    """None, or how the names in the messages differ from the expected violations"""
    left = sorted(names)
    for opath, alts, obj in sorted(expected, key=lambda e: (len(e[1]), repr(e))):
        hit = next((a for a in alts if a in left), None)
        if hit is None:
            return "no message names %s (of %s)" % ("/".join(alts), "/".join(map(str, opath)) or "the root object")
        left.remove(hit)
    allowed = {a for e in expected for a in e[1]}
    extra = [n for n in left if n not in allowed]
    return "message naming %s although it conforms" % ", ".join(extra) if extra else None
