"""C14: comments are written verbatim, at most as often as in the source, change no content, and the documented ones stay attached."""
from __future__ import annotations
import collections, itertools, os
from . import impl, space, options as O, doc as D, layout as L, reader as RD, roundtrip as R
from .c13 import strip, STYLES, SINGLE_GAP, EXTRA, variants, commented, first_diff

PROP = "C14"
BOUNDS = {
    "quick": "~750 core documents with comments at every documented placement (end of every simple keyword line, 1-3 comment lines above every object/METADATA/VALIDATION/CONNECTIONOPTIONS opener): all at once in 12 wordings, each placement alone, all subsets on documents with <= 6 placements, "
             "all nestings of blocks (group B) and siblings; x 5 option sets; comments in arbitrary places (all gaps in 9 styles, each single gap x 3, pairs of gaps on small documents) for the verbatim, no-duplication and content clauses; corpus files with their own comments and with one at every line end",
    "thorough": "all placements on groups B, C, D, F of mc/space.py, every subset up to 9 placements, each single gap x 6, 20 option sets",
}
ASSUMPTIONS = ["the text of a comment is compared without surrounding white space; several # comments joined on one line are decomposed into source comments",
               "attachment is demanded for documents written one keyword per line; comments elsewhere only have to be verbatim, not duplicated and harmless"]
HEAVY = ("placed", "subsets", "gaps", "corpus")
CASE_LIMIT = 120.0
KV = ("metadata", "validation", "connectionoptions")
NOTE = ("values", "projection", "points", "pattern")
SETS = [O.DEFAULT, (2, "\t", "'", "\r\n", True, True, True), (0, " ", '"', "\n", False, True, False), (4, " ", '"', "\n", False, False, True), (1, " ", "'", "\n", True, False, False)]
EOL = ["# e%d", "#e%d", "# e%d \"", "# 'e%d END", "# e%d # x", "# é→ e%d", "## e%d ##", "# e%d /* x", "# [e%d] (b", "# \\e%d\\", "# NAME 'e%d'", "# {} %%s %%d e%d"]
ABOVE = [["# a%d"], ["# a%d 1", "# a%d 2"], ["/* a%d */"], ["/* a%d\n  more */"], ["# a%d 1", "/* a%d 2 */", "# a%d 3"], ["#a%d"], ["# 'a%d END"], ["# a%d \"", "#"], ["/* a%d # x */"], ["/* a%d\n\n\n# b */", "# LAYER %d"], ["# é a%d"], ["/** a%d **/", "/* 'a%d */"]]


# ---------------------------------------------------------------- where a source has documented comments
def per_line(text, recs):
    """is every opener, keyword, pair and END the first thing on its line, and alone there (comments aside)?"""
    lines = set()
    for r in recs:
        if text[text.rfind("\n", 0, r.first.pos) + 1:r.first.pos].strip(" \t"):
            return False
    return True


def line_rest(text, r):
    e = text.find("\n", r.last.end)
    return text[r.last.end:len(text) if e < 0 else e]


def documented(text):
    """([(path, comment)] at line ends, [(path, [comments])] above openers), or None if not one keyword per line"""
    recs, cs = L.records(text)
    if not per_line(text, recs):
        return None
    names = collections.Counter((r.path[:-1], r.path[-1][0]) for r in recs if r.kind in ("attr", "open"))
    toks = sorted([("c", c.pos, c.end, c.raw) for c in cs])
    after = {}  # position of the last token of something on the line -> comments
    eol, above = [], []
    for r in recs:
        n = names[(r.path[:-1], r.path[-1][0])]
        if r.kind == "attr":
            if n > 1 or "\n" in text[r.first.pos:r.last.end]:
                continue
            rest = line_rest(text, r)
            here = [c for c in cs if r.last.end <= c.pos < r.last.end + len(rest)]
            if len(here) == 1 and here[0].raw[0] == "#":
                eol.append((r.path, here[0].raw.strip()))
        elif r.kind == "open" and r.name not in NOTE and not (n > 1 and (r.name in KV or r.name in D.SINGLE)):
            if line_rest(text, r).strip():
                continue  # something follows on the line of the opener
            ls = text.rfind("\n", 0, r.first.pos) + 1
            got, p = [], ls
            for c in reversed([c for c in cs if c.end <= ls]):
                if text[c.end:p].strip(" \t\r") != "\n" or text[text.rfind("\n", 0, c.pos) + 1:c.pos].strip(" \t"):
                    break
                got.insert(0, c.raw.strip())
                p = text.rfind("\n", 0, c.pos) + 1
            if got:
                above.append((r.path, got))
    return eol, above


def attached(printed, eol, above):
    """first documented comment which is not where it belongs"""
    recs, cs = L.records(printed)
    at = {(r.path, r.kind): r for r in recs if r.kind != "end"}
    for path, c in eol:
        r = at.get((path, "attr"))
        if r is None:
            return "%s is not printed" % (path,)
        e = printed.find("\n", r.last.end)
        rest = printed[r.last.end:len(printed) if e < 0 else e]
        if not rest.strip().endswith(c) or not rest.startswith(" "):
            return "%r: the line of %s ends with %r" % (c, path[-1][0], rest)
    for path, comments in above:
        r = at.get((path, "open"))
        if r is None:
            return "%s is not printed" % (path,)
        ls = printed.rfind("\n", 0, r.first.pos) + 1
        if printed[ls:r.first.pos].strip(" \t"):
            return "%s does not start a line" % (path[-1][0],)
        before = printed[:ls]
        for c in reversed(comments):
            b = before.rstrip(" \t\r")
            if not b.endswith("\n") or not b[:-1].rstrip(" \t\r").endswith(c):
                return "%r is not directly above %s: %r" % (c, path[-1][0], printed[max(0, ls - 120):r.first.end])
            b = b[:-1].rstrip(" \t\r")
            before = b[:len(b) - len(c)]
            if before[before.rfind("\n") + 1:].strip(" \t"):
                return "%r is not on a line of its own above %s" % (c, path[-1][0])
    return None


# ---------------------------------------------------------------- verbatim, no duplicates
def split(s, have):
    """all ways to write s as source comments joined by a blank"""
    if s in have:
        yield [s]
    i = s.find(" ")
    while i >= 0:
        if s[:i] in have and s[i + 1:i + 2] in "#/":
            for rest in split(s[i + 1:], have):
                yield [s[:i]] + rest
        i = s.find(" ", i + 1)


def invented(source, printed, end_comment):
    src = collections.Counter(t.raw.strip() for t in RD.scan(source) if t.kind == "c")
    toks = RD.scan(printed)
    used = collections.Counter()
    hard = []
    for i, t in enumerate(toks):
        if t.kind != "c":
            continue
        s = t.raw.strip()
        if end_comment and i and toks[i - 1].raw == "END" and not t.nl and s.startswith("# "):
            continue
        ways = list(itertools.islice(split(s, src), 200))
        if not ways:
            return "%r is not a comment of the source" % s
        if len(ways) == 1:
            used.update(ways[0])
        else:
            hard.append(ways)

    def fits(u, i):
        if any(n > src[c] for c, n in u.items()):
            return False
        return i == len(hard) or any(fits(u + collections.Counter(w), i + 1) for w in hard[i])
    if not fits(used, 0):
        return "written more often than in the source: %r" % [(c, n, src[c]) for c, n in used.items() if n > src[c]][:5]
    return None


def check(text, acc, sig, sets=SETS[:1], placed=None, load=None):
    """placed: None (whatever the text has, if it is one keyword per line), False (do not ask), or (eol, above)"""
    load = load or impl.loads_auto
    r0 = impl.attempt(load, text)
    r1 = impl.attempt(load, text, comments=True)
    acc.trans(2)
    if r0[0] != "ok" or r1[0] != "ok":
        acc.outcome("rejected" if r0[0] != "ok" else "rejected with comments (C13)")
        return
    if placed is None:
        try:
            placed = documented(text)
        except RD.ReadError:
            acc.outcome("not readable")
            return
    for o in sets:
        a, b = impl.attempt(O.printer(o).pprint, r0[1]), impl.attempt(O.printer(o).pprint, r1[1])
        acc.trans(2)
        if a[0] != "ok" or b[0] != "ok":
            acc.outcome("not printable")
            if a[0] == "ok":
                acc.fail(sig + "|print", "%r: %s" % (o, b), text=text)
            continue
        t = b[1]
        acc.state(t)
        x, y = impl.attempt(load, a[1]), impl.attempt(load, t)
        acc.trans(2)
        if x[0] == "ok":
            if y[0] != "ok":
                acc.fail(sig + "|content", "%r: the output with comments does not load: %s: %r" % (o, y, t[:900]), text=text)
                return
            if strip(x[1]) != strip(y[1]):
                acc.fail(sig + "|content", "%r: the output with comments has other content: %s" % (o, first_diff(strip(x[1]), strip(y[1]))), text=text, printed=t)
                return
        else:
            acc.outcome("plain output does not load (C01)")
            continue
        try:
            m = invented(text, t, o[4])
        except RD.ReadError:
            acc.outcome("not readable")
            continue
        if m:
            acc.fail(sig + "|verbatim", "%r: %s" % (o, m), text=text, printed=t)
            return
        if placed and R.diff(r0[1], x[1]):
            acc.outcome("output is not the input (quote character in a string)")
        elif placed:
            try:
                m = attached(t, *placed)
            except RD.ReadError:
                acc.outcome("not readable")
                continue
            acc.outcome("%s comments attached" % ("some" if placed[0] or placed[1] else "no"))
            if m:
                acc.fail(sig + "|attached", "%r: %s" % (o, m), text=text, printed=t)
                return
        acc.trace()


# ---------------------------------------------------------------- documented placements of a document
def places(toks):
    """indexes of tokens: ('eol', last token of a simple keyword line) / ('above', opener)"""
    out = []
    for i, t in enumerate(toks):
        if t.kind == "open" and t.text.lower() not in NOTE:
            out.append(("above", i))
        if t.kind == "val" and t.role == "attr" and "\n" not in t.text and (i + 1 == len(toks) or toks[i + 1].kind != "val"):
            out.append(("eol", i))
    return out


def place(toks, chosen, n, nl="\n"):
    """text with the chosen places commented in wording n"""
    seps = D.default_seps(toks)
    parts = []
    ch = set(chosen)
    for i, t in enumerate(toks):
        s = seps[i]
        if ("above", i) in ch:
            ind = s[s.find("\n") + 1:] if i else ""
            s = (s if i else "") + "".join((c.replace("%d", str(i)) + "\n" + ind) for c in ABOVE[n % len(ABOVE)])
        parts.append(s + t.text)
        if ("eol", i) in ch:
            parts.append(" " + EOL[n % len(EOL)] % i)
    return "".join(parts).replace("\n", nl)


def cases(tier):
    th = tier == "thorough"
    core = O.core()
    out = []
    for l, d in core:
        out.append(("placed", (l, d, len(EOL), len(SETS) if th else 3)))
        p = len(places(D.tokens(d)))
        if p <= (9 if th else 6):
            out.append(("subsets", (l, d)))
        n = len(D.tokens(d))
        if n <= (200 if th else 40):
            out.append(("gaps", (l, d, 6 if th else 3)))
        out.append(("any", (l, d)))
    for g, (l, d) in space.documents("BCDF" if th else "BDF", False):
        out.append(("space", ("%s %s" % (g, l), d, 3 if th else 1)))
    for t in EXTRA:
        out.append(("text", t))
    for f in space.corpus():
        out.append(("corpus", f))
    impl.warm()
    impl.loads("MAP END", comments=True)
    impl.loads("MAP END", comments=True, expand=False)
    for o in SETS:
        O.printer(o).pprint(impl.loads("MAP NAME 'x' END"))
    return out


def step(group, case, acc):
    if group == "placed":
        l, d, n, k = case
        toks = D.tokens(d)
        ps = places(toks)
        for j in range(n):
            check(place(toks, ps, j), acc, "%s|all|%d" % (l, j), SETS if j < 2 else SETS[:k - 1])
        check(place(toks, ps, 0, "\r\n"), acc, "%s|crlf" % l, SETS[:2])
        for kind in ("eol", "above"):
            check(place(toks, [p for p in ps if p[0] == kind], 1), acc, "%s|%s" % (l, kind), SETS[:2])
        for p in ps:
            check(place(toks, [p], 0), acc, "%s|only %s %d" % (l, p[0], p[1]), SETS[:1])
            check(place(toks, [q for q in ps if q != p], 4), acc, "%s|all but %s %d" % (l, p[0], p[1]), SETS[:1])
        acc.sample(place(toks, ps, 1))
    elif group == "subsets":
        l, d = case
        toks = D.tokens(d)
        ps = places(toks)
        for r in range(len(ps) + 1):
            for ch in itertools.combinations(ps, r):
                check(place(toks, ch, 1), acc, "%s|%s" % (l, ch), SETS[:1])
    elif group == "gaps":
        l, d, n = case
        toks = D.tokens(d)
        seps = D.default_seps(toks)
        for g in range(len(toks) + 1):
            for j in range(n):
                ss = list(seps) + [""]
                ss[g] = SINGLE_GAP[j] + ss[g]
                check(D.assemble(toks, ss[:-1], ss[-1])[0], acc, "%s|gap %d|%d" % (l, g, j), placed=False)
    elif group == "any":
        l, d = case
        for st, text in variants(d, STYLES, (False, True)):
            if st != "none":
                check(text, acc, "%s|%s" % (l, st), SETS[:2], placed=False)
        acc.sample(text)
    elif group == "space":
        l, d, n = case
        toks = D.tokens(d)
        ps = places(toks)
        for j in range(n):
            check(place(toks, ps, 1 + 3 * j), acc, "%s|%d" % (l, j), SETS[:1])
        acc.sample(place(toks, ps, 1))
    elif group == "text":
        for t in (case, "MAP # w\nLAYER # v\n# u\n%s # t\nEND # s\nEND" % case, "# first\n" + case + "\n# last"):
            check(t, acc, t, SETS[:2], placed=False)
            check(t.replace("\n", "\r\n"), acc, "crlf|" + t, SETS[:2], placed=False)
    elif group == "corpus":
        text = open(os.path.join(impl.REPO, case), encoding="utf-8", errors="replace").read()
        check(text, acc, case, SETS)
        check(commented(text), acc, case + "|commented", SETS[:2], placed=False)
        acc.sample(case)
