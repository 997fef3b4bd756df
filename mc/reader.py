"""Independent reader of Mapfile text.

A hand-written tokenizer and recursive reader driven by the frozen vocabulary.  It shares no code and
no technique with mappyfile (no lark, no schemas at run time) and returns the same AST that mc/doc.py
uses, so `doc.expected(read(text))` is an independent text -> dict function, and the lexical class of
every value (quoted / bare / bracketed / parenthesised ...) is explicit in the AST.

Limits: it needs to know the keyword's object type only to tell blocks from attributes, numbers are
read greedily (no Mapfile keyword is a number).
"""
from __future__ import annotations
import re
from . import vocab as V
from .doc import KV_TYPES, REPEATED, BLOCK_TYPES

REGEX_KEYS = {k for _, k in V.EXPR_KEYS}
NUM = re.compile(r"[-+]?(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?$")
HEX = re.compile(r"#[0-9a-fA-F]+$")


class ReadError(Exception):
    pass


class T:
    __slots__ = ("kind", "text", "raw", "pos", "end", "line", "col", "nl")

    def __init__(self, kind, text, raw, pos, end, nl):
        self.kind, self.text, self.raw, self.pos, self.end, self.nl = kind, text, raw, pos, end, nl

    def __repr__(self):
        return "%s:%r" % (self.kind, self.raw)


def scan(text, ws=" \t\f\r\n"):
    """tokens: q (quoted), w (bare word), p (parenthesised), n (NOT ...), b ([..]), l ({..}), r (/../), v (%..%), c (comment)"""
    i, n, out, nl = 0, len(text), [], True
    while i < n:
        c = text[i]
        if c in ws:
            if c == "\n":
                nl = True
            i += 1
            continue
        st = i
        if c == "#":
            j = text.find("\n", i)
            i = n if j < 0 else j
            raw = text[st:i].rstrip("\r")
            out.append(T("c", raw, raw, st, st + len(raw), nl))
            continue
        if text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise ReadError("unterminated comment at %d" % i)
            i = j + 2
            out.append(T("c", text[st:i], text[st:i], st, i, nl))
            continue
        if c in "\"'":
            i = quoted(text, i)
            inner = text[st + 1:i - 1]
            kind = "q"
            if i < n and text[i] in "iI" and (i + 1 == n or text[i + 1] in ws):
                i += 1
                kind, inner = "qi", text[st:i]
            out.append(T(kind, inner, text[st:i], st, i, nl))
        elif c == "`":
            j = text.find("`", i + 1)
            if j < 0:
                raise ReadError("unterminated ` at %d" % i)
            i = j + 1
            out.append(T("t", text[st:i], text[st:i], st, i, nl))
        elif c == "(":
            i = balanced(text, i)
            out.append(T("p", text[st:i], text[st:i], st, i, nl))
        elif c == "[":
            j = text.find("]", i)
            if j < 0:
                raise ReadError("unterminated [ at %d" % i)
            i = j + 1
            out.append(T("b", text[st + 1:i - 1], text[st:i], st, i, nl))
        elif c == "{":
            j = text.find("}", i)
            if j < 0:
                raise ReadError("unterminated { at %d" % i)
            i = j + 1
            out.append(T("l", text[st:i], text[st:i], st, i, nl))
        elif c == "%" and text.find("%", i + 1) > 0:
            i = text.find("%", i + 1) + 1
            out.append(T("v", text[st:i], text[st:i], st, i, nl))
        elif c == "/" and text.find("/", i + 1) > 0 and "\n" not in text[i:text.find("/", i + 1)] and (
                out and out[-1].kind == "w" and out[-1].text.lower() in REGEX_KEYS or not re.match(r"/[\w./-]+(?:\s|$)", text[i:])):
            i = text.find("/", i + 1) + 1
            if i < n and text[i] in "iI" and (i + 1 == n or text[i + 1] in ws):
                i += 1
            out.append(T("r", text[st:i], text[st:i], st, i, nl))
        elif c == "/" and re.match(r"/[^/\s]*/i?(?:\s|$)", text[i:]):
            i += re.match(r"/[^/\s]*/i?", text[i:]).end()
            out.append(T("r", text[st:i], text[st:i], st, i, nl))
        else:
            while i < n and text[i] not in ws and text[i] not in "\"'#[]{}()`":
                i += 1
            if i == st:
                raise ReadError("unexpected %r at %d" % (c, i))
            w = text[st:i]
            if w.upper() == "NOT" or w == "!":
                k = i
                while k < n and text[k] in ws:
                    k += 1
                if k < n and text[k] == "(":
                    i = balanced(text, k)
                    out.append(T("p", text[st:i], text[st:i], st, i, nl))
                    nl = False
                    continue
            out.append(T("w", w, w, st, i, nl))
        nl = False
    return out


def quoted(text, i):
    q, n = text[i], len(text)
    j = i + 1
    while j < n:
        if text[j] == "\\" and j + 1 < n and text[j + 1] == q:
            j += 2
        elif text[j] == q:
            return j + 1
        else:
            j += 1
    raise ReadError("unterminated string at %d: %r" % (i, text[i:i + 40]))


def balanced(text, i):
    depth, n, j = 0, len(text), i
    while j < n:
        c = text[j]
        if c in "\"'":
            j = quoted(text, j)
            continue
        if c == "`":
            j = text.find("`", j + 1)
            if j < 0:
                raise ReadError("unterminated ` in expression")
        elif c == "(":
            depth += 1
        elif c == ")":
            depth -= 1
            if not depth:
                return j + 1
        j += 1
    raise ReadError("unbalanced ( at %d" % i)


def unescape(raw):
    q = raw[0]
    return raw[1:-1].replace("\\" + q, q)


def val(t, key=None):
    if t.kind == "q":
        s = t.text
        if HEX.match(s) and len(s) in (4, 6, 7, 9):
            return ("hex", s)
        return ("str", s)
    if t.kind == "qi":
        return ("istr", t.raw)
    if t.kind == "p":
        return ("expr", t.raw)
    if t.kind == "b":
        return ("bind", t.text.strip())
    if t.kind == "l":
        return ("lexpr", t.raw)
    if t.kind == "r":
        return ("regexi" if t.raw[-1] in "iI" else "regex", t.raw)
    if t.kind == "v":
        return ("rtvar", t.raw)
    if t.kind == "t":
        return ("bq", t.raw)
    w = t.text
    if NUM.match(w):
        return (("num" if re.search(r"[.eE]", w) else "int"), w)
    if w.upper() in ("TRUE", "FALSE"):
        return ("bool", w)
    return ("word", w)


class Reader:
    def __init__(self, text):
        self.all = scan(text)
        self.toks = [t for t in self.all if t.kind != "c"]
        self.i = 0

    def peek(self):
        return self.toks[self.i] if self.i < len(self.toks) else None

    def next(self):
        t = self.peek()
        if t is None:
            raise ReadError("unexpected end of text")
        self.i += 1
        return t

    def is_end(self, t):
        return t is not None and t.kind == "w" and t.text.upper() == "END"

    def document(self):
        out = []
        while self.peek():
            t = self.next()
            w = t.text.lower()
            if t.kind != "w":
                raise ReadError("root object expected: %r" % t.raw)
            if w in KV_TYPES:
                out.append(self.kv(w))
            elif w in BLOCK_TYPES or w == "symbolset":
                out.append(self.block(w))
            else:
                raise ReadError("root object expected: %r" % t.raw)
        return out

    def block(self, type_):
        items = []
        slots = V.VOCAB[type_]["slots"]
        while True:
            t = self.next()
            if self.is_end(t):
                return ("block", type_, items)
            if t.kind != "w":
                raise ReadError("keyword expected in %s: %r" % (type_, t.raw))
            w = t.text.lower()
            sl = slots.get(w)
            if sl is None:
                if w in BLOCK_TYPES:
                    items.append(self.block(w))
                    continue
                if w in KV_TYPES:
                    items.append(self.kv(w))
                    continue
            kd = sl["kind"] if sl else "attr"
            if kd == "attr":
                items.append(("attr", w, self.value(w)))
            elif kd == "repeated":
                items.append(("rep", w, sval(self.next())))
            elif kd in ("block", "blocks"):
                items.append(self.block(w))
            elif kd == "kv":
                items.append(self.kv(w))
            elif kd == "config":
                items.append(("config", sval(self.next()), sval(self.next())))
            elif kd == "projection":
                vs = []
                while not self.is_end(self.peek()):
                    vs.append(sval(self.next()))
                self.next()
                if len(vs) == 1 and vs[0][0] == "word" and vs[0][1].upper() == "AUTO":
                    vs = "AUTO"
                items.append(("proj", vs))
            elif kd in ("points", "pattern"):
                vs = []
                while not self.is_end(self.peek()):
                    a, b = self.next(), self.next()
                    if not (NUM.match(a.text) and NUM.match(b.text)):
                        raise ReadError("number pair expected in %s" % w)
                    vs.append((a.text, b.text))
                self.next()
                items.append((kd, vs))

    def kv(self, w):
        pairs = []
        while not self.is_end(self.peek()):
            a, b = self.next(), self.next()
            if a.kind not in "qw" or b.kind not in ("q", "w", "qi"):
                raise ReadError("string pair expected in %s: %r %r" % (w, a.raw, b.raw))
            pairs.append((kvval(a), kvval(b)))
        self.next()
        return ("kv", w, pairs)

    def value(self, key):
        t = self.next()
        v = val(t)
        vals = [v]
        def more(cond):
            while self.peek() is not None and cond(val(self.peek())):
                vals.append(val(self.next()))
        if v[0] in ("int", "num", "bind"):
            if v[0] == "bind":
                nx = self.peek()
                if nx is not None and val(nx)[0] in ("int", "num", "bind"):
                    vals.append(val(self.next()))
            else:
                more(lambda x: x[0] in ("int", "num"))
                if len(vals) == 1 and self.peek() is not None and val(self.peek())[0] == "bind":
                    vals.append(val(self.next()))
        elif v[0] == "hex":
            more(lambda x: x[0] == "hex")
        return vals[0] if len(vals) == 1 else ("list", vals)


def sval(t):
    """value of a keyword whose values are plain strings (no colours)"""
    return ("str", t.text) if t.kind == "q" else val(t)


def kvval(t):
    return ("str", t.text) if t.kind == "q" else ("word", t.text) if t.kind == "w" else ("istr", t.raw)


def read(text):
    return Reader(text).document()
