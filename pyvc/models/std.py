"""Contracts assumed for the standard library pieces the code uses."""
import bisect as _bisect
import collections as _collections
import z3
from .. import core
from ..core import Unsupported, eng, Sym, SInt
from ..runtime import ModelModule, Missing, v_sorted
from ..containers import VDict, VList, SortedKeys, SymColl, issym, iterm, sint
from ..arr import Arr


class Logger:
    handlers = ()
    level = 20
    def isEnabledFor(self, l): return False
    def _n(self, *a, **k): pass
    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = removeHandler = _n
    def hasHandlers(self): return True


LOG = Logger()


def make_logging(loader):
    return ModelModule('logging', dict(getLogger=lambda *a: LOG, _checkLevel=lambda l: 10, DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50,
                                       getLevelName=lambda l: l, Logger=Logger, basicConfig=lambda **k: None,
                                       StreamHandler=lambda *a, **k: LOG, FileHandler=lambda *a, **k: LOG, Formatter=lambda *a, **k: None))


def _sk(x):
    if isinstance(x, SymColl):
        return SortedKeys.of(x) if x.order == 'sorted' or True else x
    return x


def bis(side):
    def f(a, x, lo=0, hi=None):
        if isinstance(a, SortedKeys):
            return a.bisect(x, side)
        if isinstance(a, SymColl):
            if a.order != 'sorted':
                # bisect on a sequence not known to be sorted
                raise Unsupported('bisect on an unsorted collection')
            return SortedKeys.of(a).bisect(x, side)
        if isinstance(a, (list, tuple)):
            n = 0
            for y in a:
                if (y < x) if side == 'left' else (y <= x):
                    n += 1
                else:
                    break
            return n
        raise Unsupported('bisect')
    return f


def ordered_dict(x=(), **k):
    from ..runtime import v_dict
    if isinstance(x, SymColl):
        return v_dict(x)
    return VDict(x, **k)


class DefaultDict(VDict):
    def __init__(self, factory=None, *a):
        VDict.__init__(self, *a)
        self.factory = factory

    def __getitem__(self, k):
        if k in self:
            return VDict.__getitem__(self, k)
        if self.factory is None:
            raise KeyError(k)
        v = self.factory()
        self[k] = v
        return v


class NullStream:
    """stdout / stderr of a process whose output is not looked at"""
    def write(self, *a): return 0
    def flush(self): pass
    def isatty(self): return False
    def fileno(self): return 1


def make_math(loader):
    import math
    from ..core import ew, lift
    d = {k: getattr(math, k) for k in dir(math) if not k.startswith('_')}

    def wrap(native, op):
        def f(*a):
            if not any(isinstance(x, Sym) or isinstance(x, Arr) for x in a):
                return native(*a)
            return ew(op, *[lift(x.item() if isinstance(x, Arr) else x) for x in a])
        return f
    for n, op in (('sqrt', 'sqrt'), ('sin', 'sin'), ('cos', 'cos'), ('tan', 'tan'), ('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan'), ('atan2', 'arctan2'),
                  ('exp', 'exp'), ('log', 'log'), ('radians', 'radians'), ('degrees', 'degrees'), ('fabs', 'abs'), ('isnan', 'isnan'), ('isinf', 'isinf'), ('isfinite', 'isfinite'),
                  ('pow', '**')):
        d[n] = wrap(getattr(math, n), op)
    for n, op in (('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc')):
        d[n] = (lambda native, op: lambda x: native(x) if not isinstance(x, (Sym, Arr)) else SInt(iterm(ew(op, lift(x)))))(getattr(math, n), op)
    return ModelModule('math', d)


MODELS = {
    'logging': make_logging,
    'gc': lambda l: ModelModule('gc', dict(collect=lambda *a: 0)),
    'warnings': lambda l: ModelModule('warnings', dict(filterwarnings=lambda *a, **k: None, simplefilter=lambda *a, **k: None, warn=lambda *a, **k: None)),
    'bisect': lambda l: ModelModule('bisect', dict(bisect_left=bis('left'), bisect_right=bis('right'), bisect=bis('right'))),
    'collections': lambda l: ModelModule('collections', dict(OrderedDict=ordered_dict, namedtuple=_collections.namedtuple, defaultdict=DefaultDict)),
    'datetime': lambda l: __import__('datetime'),
    'time': lambda l: ModelModule('time', dict(time=lambda: 0.0, perf_counter=lambda: 0.0, sleep=lambda *a: None, ctime=lambda *a: 'now', strftime=lambda *a: 'now', gmtime=lambda *a: 0, localtime=lambda *a: 0)),
    'sys': lambda l: ModelModule('sys', dict(maxsize=2 ** 63 - 1, stdout=NullStream(), stderr=NullStream(), version_info=(3, 12), platform='linux', float_info=__import__('sys').float_info)),
    'math': make_math,
    'os': lambda l: __import__('os'),
    'os.path': lambda l: __import__('os.path').path,
    're': lambda l: __import__('re'),
    'itertools': lambda l: __import__('itertools'),
    'functools': lambda l: __import__('functools'),
    'copy': lambda l: __import__('copy'),
    '__future__': lambda l: __import__('__future__'),
    'abc': lambda l: __import__('abc'),
    'string': lambda l: __import__('string'),
    'pathlib': lambda l: __import__('pathlib'),
    **{n: (lambda n: lambda l: __import__(n))(n) for n in ('types', 'typing', 'operator', 'contextlib', 'enum', 'numbers', 'dataclasses', 'traceback', 'inspect')},
    'collections.abc': lambda l: __import__('collections.abc').abc,
}
