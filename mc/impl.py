"""Facade over the implementation in /repo.

Deep enumerations reuse one Parser / MapfileToDict / PrettyPrinter / Validator object per option set
(0.5 ms per document); `pub` uses the module-level functions exactly as a user calls them.  Building
a Parser costs ~130 ms, nearly all of it lark's LALR table construction, so Lark's own `cache` option
(keyed by lark on the grammar text and options) is switched on with a per-run file; nothing in the
code under test changes.
"""
from __future__ import annotations
import io, os, re, sys, tempfile, atexit, shutil, logging

REPO = os.environ.get("MC_REPO", "/repo")
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)

import lark  # noqa: E402

_cache_dir = None
_owner = os.getpid()


def _cleanup():
    if _cache_dir and os.getpid() == _owner:
        shutil.rmtree(_cache_dir, ignore_errors=True)


def enable_lark_cache():
    global _cache_dir
    if _cache_dir:
        return
    _cache_dir = tempfile.mkdtemp(prefix="mclark-")
    atexit.register(_cleanup)
    orig = lark.Lark.__init__

    def patched(self, grammar, **options):
        if options.get("parser") == "lalr" and "cache" not in options:
            options["cache"] = os.path.join(_cache_dir, "g%d" % bool(options.get("lexer_callbacks")))
        return orig(self, grammar, **options)

    lark.Lark.__init__ = patched


enable_lark_cache()
import mappyfile  # noqa: E402
from mappyfile.parser import Parser  # noqa: E402
from mappyfile.transformer import MapfileToDict  # noqa: E402
from mappyfile.pprint import PrettyPrinter  # noqa: E402
from mappyfile.validator import Validator  # noqa: E402

assert os.path.realpath(mappyfile.__file__).startswith(os.path.realpath(REPO) + os.sep), mappyfile.__file__
pub = mappyfile
LarkError = lark.exceptions.LarkError
_p, _m, _pp, _v = {}, {}, {}, []


def loads(text, comments=False, position=False, expand=True, fn=None):
    k = (comments, expand)
    if k not in _p:
        _p[k] = Parser(expand_includes=expand, include_comments=comments)
    j = (comments, position)
    if j not in _m:
        _m[j] = MapfileToDict(include_position=position, include_comments=comments)
    return _m[j].transform(_p[k].parse(text, fn))


_inc = re.compile(r"(?im)^\s*include\b")


def has_include(text):
    """an INCLUDE line: such documents are loaded with expand_includes=False (expansion itself is C15)"""
    return bool(_inc.search(text))


def loads_auto(text, **kw):
    return loads(text, expand=not has_include(text), **kw)


def pub_loads(text, **kw):
    return pub.loads(text, expand_includes=not has_include(text), **kw)


def dumps(d, **o):
    k = tuple(sorted(o.items()))
    if k not in _pp:
        _pp[k] = PrettyPrinter(**o)
    return _pp[k].pprint(d)


def validate(d, **kw):
    if not _v:
        _v.append(Validator())
    return _v[0].validate(d, **kw)


def warm():
    """build the shared objects before forking so that the workers inherit them"""
    loads("MAP END")
    loads("MAP END", expand=False)
    loads("MAP END", comments=True, position=True)
    dumps(loads("MAP NAME 'x' LAYER CLASS STYLE END LABEL END END END END"))
    validate(loads("MAP NAME 'x' END"))


def attempt(f, *a, **k):
    """('ok', value) or ('exc', type, message)"""
    try:
        return ("ok", f(*a, **k))
    except Exception as e:
        return ("exc", type(e).__name__, exc_text(e))


def exc_text(e):
    try:
        return str(e)[:300]
    except Exception:
        return "<no text>"
