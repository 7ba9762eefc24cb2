"""Helpers shared by the contract files."""
import z3
from . import core, arr
from .core import Engine, SInt, SReal, SBool, zand, zor, znot, zimp, zb, lift, same, Z, R, B, T, F, eng, Unsupported, PathEnd, ew, ite
from .load import Loader
from .models import np_model, std, ext, world


def models(**over):
    m = {}
    m.update(std.MODELS)
    m.update(np_model.MODELS)
    m.update(ext.MODELS)
    m.update(world.MODELS)
    m.update(over)
    return m


def loader(over=None):
    m = models()
    m.update(over or {})
    return Loader(m)


def sint_(e, name, *cs):
    t = e.fresh(Z, name)
    e.inputs.append((name, t))
    return SInt(t)


def sreal_(e, name):
    t = e.fresh(R, name)
    e.inputs.append((name, t))
    return SReal(t)


def sbool_(e, name):
    t = e.fresh(B, name)
    e.inputs.append((name, t))
    return SBool(t)


class Raised(Exception):
    pass


def call(f, *a, **k):
    """(result, exception) of running repo code"""
    try:
        return f(*a, **k), None
    except Exception as ex:
        vet(ex)
        return None, ex


_NAMES = __import__('re').compile(r"\b(SStr|SInt|SReal|SBool|Sym|Arr|ISeq|SymColl|SortedKeys|VDict|VList|SRange|Undef|ModelModule|Missing|RecArr)\b")


def vet(ex):
    """an exception that comes from the verifier's own machinery is not the code's: not supported, never a violation"""
    import linecache
    import traceback
    if isinstance(ex, (z3.Z3Exception, RecursionError, MemoryError)):
        raise Unsupported(f'{type(ex).__name__}: {ex}')
    if isinstance(ex, (TypeError, AttributeError)) and _NAMES.search(str(ex)):
        raise Unsupported(f'{type(ex).__name__}: {ex}')
    tb = traceback.extract_tb(ex.__traceback__)
    if tb and ('/pyvc/' in tb[-1].filename or '/contracts/' in tb[-1].filename) and 'raise' not in (linecache.getline(tb[-1].filename, tb[-1].lineno)):
        raise Unsupported(f'{type(ex).__name__} in {tb[-1].filename}:{tb[-1].lineno}: {ex}')


def extxt(ex):
    if ex is None:
        return ''
    try:
        return f'{type(ex).__name__}: {ex}'
    except Exception:
        pass
    try:
        return f'{type(ex).__name__}: {[str(type(a)) + str(getattr(a, "t", "")) + str({k: getattr(v, "t", v) for k, v in getattr(a, "__dict__", {}).items()}) for a in ex.args]}'
    except Exception:
        return type(ex).__name__


def trace(ex):
    import traceback
    return '\n'.join(f'{f.filename}:{f.lineno} {f.name}' for f in traceback.extract_tb(ex.__traceback__)[-6:])
