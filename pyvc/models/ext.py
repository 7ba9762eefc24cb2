"""Third-party modules that need something at import time."""
from ..runtime import ModelModule, Missing
from ..containers import mkrange
from ..core import Unsupported


def _ident(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k:
        return a[0]
    return lambda f: f


class NbType:
    def __init__(self, n): self.n = n
    def __call__(self, *a, **k): return self
    def __getitem__(self, i): return self
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NbType(self.n + '.' + n)


def make_numba(l):
    m = ModelModule('numba', dict(njit=_ident, jit=_ident, prange=mkrange, vectorize=_ident, guvectorize=_ident))
    for t in ('int32', 'int64', 'float32', 'float64', 'boolean', 'void', 'types', 'config', 'intp', 'b1', 'f8', 'i8'):
        setattr(m, t, NbType(t))
    return m


FILLVALS = {'S1': '\x00', 'i1': -127, 'u1': 255, 'i2': -32767, 'u2': 65535, 'i4': -2147483647, 'u4': 4294967295, 'i8': -9223372036854775806,
            'u8': 18446744073709551614, 'f4': 9.969209968386869e+36, 'f8': 9.969209968386869e+36}

class _EccErr(Exception):
    pass


def make_eccodes(l):
    return ModelModule('eccodes', dict(KeyValueNotFoundError=type('KeyValueNotFoundError', (_EccErr,), {}),
                                       CodesInternalError=_EccErr, codes_get_api_version=lambda *a: '2.30.0', GribInternalError=_EccErr))


MODELS = {
    'numba': make_numba,
    'numba.core': lambda l: ModelModule('numba.core', {}),
    'netCDF4': lambda l: ModelModule('netCDF4', dict(default_fillvals=FILLVALS)),
    'eccodes': make_eccodes,
}
