"""Raw token sequences in every context of the grammar: every text is generated, and those loads accepts are used."""
from __future__ import annotations
from . import roundtrip as R, c11, vocab as V

EXPR = ["[b]", "AND", "or", "in", "!", "NOT", "{x y,z}", "f(1)", "+", "-", "*", "%", "^", "(-1)", "([a] = 1)", "~*", "TRUE", ","]


def texts(case):
    c, a = c11.CTX[case[0]], case[1]
    if case[2]:
        small = c11.VOC4 + EXPR
        tails = [x + " " + y for x in (small if case[2] == 2 else EXPR + ["1", "'s'", "[a]", "(1)", "x", "{", "}", "(", ")"]) for y in small]
    else:
        tails = [""] + c11.VOC + EXPR
    for b in tails:
        yield c % (a + " " + b)


def quoted_special(text):
    """a quoted string which itself looks like an expression, regex, list or binding (documented exclusion)"""
    return any(x[:1] in "\"'`" and V.looks_special(x.rstrip("i")[1:-1]) for x in c11.lex(text))


def printable(text, d, quotes='"'):
    """the text is no documented exclusion: known keywords, no string which looks special, holds the output quote or ends in a backslash"""
    return not (R.unknown_keywords(d) or quoted_special(text)
                or R.any_string(d, lambda s: any(q in s.replace("\\" + q, "") for q in quotes) or s.endswith("\\")))


def cases(size=0):
    """every two tokens (85 x 86 x 27 contexts), with size 1 or 2 also three"""
    out = [("raw", (c, a, 0)) for c in range(len(c11.CTX)) for a in c11.VOC + EXPR]
    if size:
        out += [("raw", (c, a, size)) for c in range(len(c11.CTX)) for a in c11.VOC4 + EXPR]
    return out
