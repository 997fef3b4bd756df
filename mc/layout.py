"""Where the parts of a document stand in a text: an independent reading of any Mapfile text, one record per
opener / keyword / pair / projection string / number pair / END, with its nesting depth and its path.

path = ((name, n), ...): n counts the siblings of that name, so the records of two texts of the same content
correspond even if the objects were grouped or moved.
"""
from __future__ import annotations
from . import reader as RD
from .doc import SINGLE


class Rec:
    """kind: open, end, attr, rep, config, pair, proj, points, pattern"""
    __slots__ = ("kind", "depth", "path", "first", "value", "last", "obj", "name")

    def __init__(self, kind, depth, path, first, value, last, obj, name):
        self.kind, self.depth, self.path, self.first, self.value, self.last, self.obj, self.name = kind, depth, path, first, value, last, obj, name

    def __repr__(self):
        return "%s %s @%d" % (self.kind, self.name, self.first.pos)


class LayoutReader(RD.Reader):
    def __init__(self, text):
        super().__init__(text)
        self.recs, self.stack, self.counts, self.nobj = [], [], [{}], 0

    def at(self, name):
        c = self.counts[-1]
        c[name] = c.get(name, -1) + 1
        return tuple(self.stack) + ((name, c[name]),)

    def document(self):
        out = super().document()
        return out

    def enter(self, name):
        p = self.at(name)
        self.nobj += 1
        t = self.toks[self.i - 1]
        self.recs.append(Rec("open", len(self.stack), p, t, None, t, self.nobj, name))
        self.stack.append(p[-1])
        self.counts.append({})
        return p, self.nobj

    def leave(self, p, obj, name):
        self.stack.pop()
        self.counts.pop()
        t = self.toks[self.i - 1]
        self.recs.append(Rec("end", len(self.stack), p, t, None, t, obj, name))

    def block(self, type_):
        p, obj = self.enter(type_)
        items = []
        slots = RD.V.VOCAB[type_]["slots"]
        while True:
            t = self.next()
            if self.is_end(t):
                self.leave(p, obj, type_)
                return ("block", type_, items)
            if t.kind != "w":
                raise RD.ReadError("keyword expected in %s: %r" % (type_, t.raw))
            w = t.text.lower()
            sl = slots.get(w)
            kd = sl["kind"] if sl else "block" if w in RD.BLOCK_TYPES else "kv" if w in RD.KV_TYPES else "attr"
            i0 = self.i
            if kd in ("attr", "repeated", "config"):
                if kd == "attr":
                    items.append(("attr", w, self.value(w)))
                elif kd == "repeated":
                    items.append(("rep", w, RD.sval(self.next())))
                else:
                    items.append(("config", RD.sval(self.next()), RD.sval(self.next())))
                self.recs.append(Rec({"repeated": "rep"}.get(kd, kd), len(self.stack), self.at(w), t, self.toks[i0 + (kd == "config")], self.toks[self.i - 1], obj, w))
            elif kd in ("block", "blocks"):
                items.append(self.block(w))
            elif kd == "kv":
                items.append(self.kv(w))
            else:
                q, o = self.enter(w)
                vs = []
                while not self.is_end(self.peek()):
                    a = self.next()
                    b = a if kd == "projection" else self.next()
                    self.recs.append(Rec("proj" if kd == "projection" else kd, len(self.stack), self.at(""), a, b, b, o, w))
                    vs.append(a.raw if a is b else (a.raw, b.raw))
                self.next()
                self.leave(q, o, w)
                items.append((kd, vs))

    def kv(self, w):
        p, obj = self.enter(w)
        pairs = []
        while not self.is_end(self.peek()):
            a, b = self.next(), self.next()
            pairs.append((RD.kvval(a), RD.kvval(b)))
            self.recs.append(Rec("pair", len(self.stack), self.at(""), a, b, b, obj, w))
        self.next()
        self.leave(p, obj, w)
        return ("kv", w, pairs)


def records(text):
    r = LayoutReader(text)
    r.document()
    return r.recs, [t for t in r.all if t.kind == "c"]


def strip_comments(text):
    """the text without its comments: the comment and the blanks before it, and the whole line if nothing else is on it"""
    runs = []  # comments with nothing but blanks between them disappear together
    for t in RD.scan(text):
        if t.kind == "c":
            if runs and not text[runs[-1][1]:t.pos].strip(" \t"):
                runs[-1][1] = t.end
            else:
                runs.append([t.pos, t.end])
    out, i = [], 0
    for a, b in runs:
        while a > i and text[a - 1] in " \t":
            a -= 1
        # only blanks on the line(s) of the comment: take the line break too
        if (a == 0 or text[a - 1] == "\n") and (b == len(text) or text[b] == "\n" or text.startswith("\r\n", b)):
            b = min(len(text), b + (2 if text.startswith("\r\n", b) else 1))
        out.append(text[i:a])
        i = max(i, b)
    out.append(text[i:])
    return "".join(out)
