"""Schemas ($ref / oneOf / anyOf / allOf) -> flat list of alternatives per keyword, with their version ranges.

Written from scratch; does not use mappyfile, jsonref or jsonschema."""
import json, os

BLOCKS = ["class", "cluster", "composite", "feature", "grid", "join", "label", "layer", "leader",
          "legend", "map", "outputformat", "querymap", "reference", "scalebar", "scaletoken",
          "style", "web", "symbol", "symbolset"]
SINGLE = {"cluster", "grid", "leader", "legend", "querymap", "reference", "scalebar", "web"}
PLURAL = {"classes": "class", "composites": "composite", "features": "feature", "joins": "join",
          "labels": "label", "layers": "layer", "outputformats": "outputformat",
          "scaletokens": "scaletoken", "styles": "style", "symbols": "symbol"}
KV = {"metadata", "validation", "values", "connectionoptions"}
REPEATED = {"processing", "formatoption", "include", "compfilter"}


FOLDER = None


def load(name):
    return json.load(open(os.path.join(FOLDER, name), encoding="utf-8"))


def rng(md, lo, hi):
    md = md or {}
    return max(lo, md.get("minVersion", lo)), min(hi, md.get("maxVersion", hi))


def flat(s, lo, hi, parent=None):
    """flat list of alternatives; each carries [lo, hi]"""
    if "metadata" in s and isinstance(s["metadata"], dict) and ("minVersion" in s["metadata"] or "maxVersion" in s["metadata"]):
        lo, hi = rng(s["metadata"], lo, hi)
    if "$ref" in s:
        r = s["$ref"]
        if r in ("symbol.json",):
            return [{"k": "block", "type": "symbol", "lo": lo, "hi": hi}]
        return flat(load(r), lo, hi, s)
    for c in ("oneOf", "anyOf", "allOf"):
        if c in s:
            out = []
            for o in s[c]:
                out += flat(o, lo, hi)
            extra = {k: s[k] for k in ("minimum", "maximum") if k in s}
            for o in out:
                if o["k"] in ("int", "num"):
                    for k, v in extra.items():
                        o.setdefault(k, v)
            return out
    a = {"lo": lo, "hi": hi}
    if "enum" in s:
        a.update(k="enum", values=s["enum"])
        return [a]
    t = s.get("type")
    if t == "string" or "pattern" in s:
        p = s.get("pattern")
        if p is None:
            a.update(k="str")
            for q in ("minLength", "maxLength"):
                if q in s:
                    a[q] = s[q]
        elif p.startswith("^\\["):
            a.update(k="bind")
        elif p.startswith("^\\("):
            a.update(k="expr")
        elif p.startswith("^/"):
            a.update(k="regex")
        elif p.startswith("^#"):
            a.update(k="hex")
        elif p.startswith("^&#"):
            a.update(k="charref")
        else:
            a.update(k="strpat", pattern=p)
        return [a]
    if t in ("number", "integer"):
        a.update(k="int" if t == "integer" else "num")
        for q in ("minimum", "maximum"):
            if q in s:
                a[q] = s[q]
        return [a]
    if t == "boolean":
        a.update(k="bool")
        return [a]
    if t == "array":
        items = s["items"]
        if isinstance(items, list):
            it = [flat(i, lo, hi) for i in items]
            a.update(k="tuple", items=it)
        else:
            a.update(k="list", items=flat(items, lo, hi))
        a["n"] = s.get("minItems") or (2 if not isinstance(items, list) else len(items))
        if s.get("minItems") is None and not isinstance(items, list):
            # style.json OFFSET / POLAROFFSET put minItems on the item schema: pairs by MapServer's definition
            a["n"] = 2
        return [a]
    a.update(k="other", schema=s)
    return [a]


def vocabulary(folder):
    global FOLDER
    FOLDER = folder
    vocab = {}
    for b in BLOCKS:
        sch = load(b + ".json")
        slots = {}
        for key, s in sch["properties"].items():
            if key.startswith("__"):
                continue
            lo, hi = 0.0, 1000.0
            e = {}
            md = s.get("metadata") or {}
            if "minVersion" in md or "maxVersion" in md:
                e["lo"], e["hi"] = rng(md, lo, hi)
            if "default" in s:
                e["default"] = s["default"]
            if key in PLURAL and s.get("type") == "array":
                e["kind"] = "blocks"
                e["type"] = PLURAL[key]
                for q in ("minItems", "maxItems"):
                    if q in s:
                        e[q] = s[q]
            elif key in SINGLE:
                e["kind"] = "block"
                e["type"] = key
            elif key in KV:
                e["kind"] = "kv"
            elif key == "config":
                e["kind"] = "config"
            elif key == "projection":
                e["kind"] = "projection"
            elif key == "points":
                e["kind"] = "points"
            elif key == "pattern":
                e["kind"] = "pattern"
            elif key in REPEATED:
                e["kind"] = "repeated"
            else:
                e["kind"] = "attr"
                if s.get("$ref") == "points.json" or (s.get("allOf") or [{}])[0].get("$ref") == "points.json":
                    # BACKGROUNDSHADOWSIZE: written as a pair, schema models it as a list of pairs
                    e["alts"] = [{"k": "list", "n": 2, "items": [{"k": "int", "lo": 0.0, "hi": 1000.0}], "lo": 0.0, "hi": 1000.0, "misschema": True}]
                else:
                    e["alts"] = flat({k: v for k, v in s.items() if k != "metadata"}, 0.0, 1000.0)
            slots[key] = e
        vocab[b] = {"slots": slots, "required": sch.get("required", [])}
    return vocab
