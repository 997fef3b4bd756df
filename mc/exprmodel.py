"""Reference model of MapServer expressions: an independent precedence-climbing parser.

OR < AND < NOT < comparisons < + - < * / % ^ (one left-associative level, unary sign on operands);
explicit parentheses group.  AST nodes are tuples; redundant parentheses leave no trace, operator
spellings and operand texts are kept as written (&& || ! become AND OR NOT).
"""
from __future__ import annotations
import re
from functools import lru_cache
from . import vocab as V
from . import doc as D

TOK = re.compile(r"""\s*(?:
    (?P<str>"(?:\\"|[^"])*"i?|'(?:\\'|[^'])*'i?|`[^`]*`i?)
  | (?P<bind>\[[^\]]*\])
  | (?P<list>\{[^}]*\})
  | (?P<num>(?:\d+\.\d*|\.\d+|\d+)(?:[eE][-+]?\d+)?(?![\w]))
  | (?P<name>[A-Za-z_][\w:]*)
  | (?P<op>&&|\|\||>=|<=|==|!=|=\*|~\*|[-+*/%^=<>~!(),])
)""", re.X)
CMP_SYM = {">=", "<=", "==", "!=", "=*", "~*", "=", "<", ">", "~"}
CMP_WORD = {"IN", "NE", "EQ", "LE", "LT", "GE", "GT", "LIKE"}


class ExprError(ValueError):
    pass


class P:
    def __init__(self, s):
        self.s, self.i, self.n = s, 0, len(s)
        self.cur = None
        self.operand_next = True
        self.advance()

    def advance(self):
        m = re.compile(r"\s*").match(self.s, self.i)
        self.i = m.end()
        if self.i >= self.n:
            self.cur = ("eof", "")
            return
        if self.operand_next:
            # a regular expression, or runtime variable, can only be an operand
            m = re.compile(r"/[^/\n]*/i?|%[^%\s]*%|\\\\.*?\\\\i?").match(self.s, self.i)
            if m:
                self.i = m.end()
                self.cur = ("regex", m.group())
                self.operand_next = False
                return
        m = TOK.match(self.s, self.i)
        if not m or m.end() == self.i:
            raise ExprError("bad token at %r" % self.s[self.i:self.i + 20])
        self.i = m.end()
        k = m.lastgroup
        t = m.group(k)
        if k == "name" and t.upper() in CMP_WORD | {"AND", "OR", "NOT"}:
            k = "op"
            if t.upper() in ("AND", "OR", "NOT"):
                t = t.upper()
        if k == "op":
            t = {"&&": "AND", "||": "OR", "!": "NOT"}.get(t, t)
        self.operand_next = k == "op" and t != ")"
        self.cur = (k, t)

    def op(self, *names):
        return self.cur[0] == "op" and self.cur[1] in names

    def take(self):
        t = self.cur
        self.advance()
        return t

    def expr(self):
        a = self.and_()
        while self.op("OR"):
            self.take()
            a = ("OR", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.op("AND"):
            self.take()
            a = ("AND", a, self.not_())
        return a

    def not_(self):
        if self.op("NOT"):
            self.take()
            return ("NOT", self.not_())
        return self.cmp()

    def cmp(self):
        a = self.sum()
        while self.cur[0] == "op" and (self.cur[1] in CMP_SYM or self.cur[1].upper() in CMP_WORD):
            o = self.take()[1]
            a = ("cmp", o, a, self.sum())
        return a

    def sum(self):
        a = self.prod()
        while self.op("+", "-"):
            o = self.take()[1]
            a = (o, a, self.prod())
        return a

    def prod(self):
        a = self.unary()
        while self.op("*", "/", "%", "^"):
            o = self.take()[1]
            a = (o, a, self.unary())
        return a

    def unary(self):
        if self.op("-"):
            self.take()
            return ("neg", self.unary())
        if self.op("+"):
            self.take()
            return self.unary()
        return self.atom()

    def atom(self):
        k, t = self.cur
        if k == "op" and t == "(":
            self.take()
            a = self.expr()
            if not self.op(")"):
                raise ExprError("')' expected")
            self.take()
            return a
        if k in ("str", "bind", "num", "regex", "list"):
            self.take()
            return (k, t)
        if k == "name":
            self.take()
            if self.op("("):
                self.take()
                args = []
                if not self.op(")"):
                    args.append(self.expr())
                    while self.op(","):
                        self.take()
                        args.append(self.expr())
                if not self.op(")"):
                    raise ExprError("')' expected")
                self.take()
                return ("call", t) + tuple(args)
            return ("name", t)
        raise ExprError("operand expected, found %r" % (t,))


@lru_cache(200000)
def parse(s):
    p = P(s)
    a = p.expr()
    if p.cur[0] != "eof":
        raise ExprError("trailing text %r" % (p.cur,))
    return a


EXPR_NAMES = {k for _, k in V.EXPR_KEYS} | {"geomtransform", "filter", "text", "expression"}


def is_expr(s):
    t = s.strip()
    return t.startswith("(") and t.endswith(")") or bool(re.match(r"(?i)(NOT\b|!)\s*\(", t)) and t.endswith(")")


def canon_str(s):
    if is_expr(s):
        try:
            return ("x", repr(parse(s)))
        except ExprError:
            pass
    return ("s", str(s))


def canon(x, key=None, keep=("__type__",), hidden=True):
    """D.canon with expression values replaced by their structure"""
    if isinstance(x, dict):
        return ("D",) + tuple((k, canon(v, k, keep, hidden)) for k, v in x.items()
                              if hidden or not (isinstance(k, str) and k.startswith("__") and k.endswith("__")) or k in keep)
    if isinstance(x, (list, tuple)):
        return ("L",) + tuple(canon(v, None, keep, hidden) for v in x)
    if isinstance(x, str) and key in EXPR_NAMES:
        return canon_str(x)
    return D.canon(x, hidden, keep)
