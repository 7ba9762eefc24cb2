"""shared by C14/C15: eccodes messages by contract; a message is known by its position in the file"""
from contracts.interp import *
from pyvc.runtime import ModelModule
from pyvc.containers import ISeq, VList, VDict, Inv, CandInv, iterm, sint, resolve
from pyvc.core import R, Z, B, T, F, _simp, Unsupported
from pyvc.syms import SStr
from pyvc.models import world
from pyvc.models.ext import _EccErr

STRKEYS = {'shortName', 'units', 'stepType', 'stepUnits', 'levelType', 'typeOfLevel', 'gridType'}


class Gid:
    """message at position t of the file"""
    __vc_sym__ = True

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Gid) and eng().branch(o.t == self.t)
    __hash__ = object.__hash__


def kval(t, k):
    if k in STRKEYS:
        return SStr(core.uf('key_' + k, Z, world.S)(t))
    return SInt(core.uf('key_' + k, Z, Z)(t))


def kdef(t, k):
    return core.uf('def_' + k, Z, B)(t)


def size(t):
    return core.uf('points', Z, Z)(t)


def value(t):
    """the decoded values of a message"""
    f = core.uf('val', Z, Z, R)
    eng().axiom(('points', _simp(t).get_id()), size(t) >= 1)
    eng().keep.append(_simp(t))
    return Arr((sint(size(t)),), lambda i: SReal(f(t, i), F, core.I0, True), 'f8')


def bitmap(t):
    f = core.uf('bit', Z, Z, B)
    return Arr((sint(size(t)),), lambda i: SInt(z3.If(f(t, i), z3.IntVal(1), z3.IntVal(0))), 'i8')


def missing(t, i):
    return zand(core.uf('key_bitmapPresent', Z, Z)(t) != 0, znot(core.uf('bit', Z, Z, B)(t, i)))


class Index:
    def __init__(self, path, keys):
        self.path, self.keys, self.sel = path, list(keys), {}
        self.cur = None
        self.released = False


class Lib:
    """eccodes; every message of the file defines the keys of real GRIB messages unless asked otherwise"""

    def __init__(self, e, n, always=()):
        self.e, self.n = e, n
        self.always = set(always)
        self.released = []
        self.index = None
        self.cannot_index = False
        self.it = None          # position of the loop over messages (set by the contract of the scanning loop)

    def defined(self, g, k):
        return T if k in self.always else kdef(g.t, k)

    def get(self, g, k, ktype=None):
        if not isinstance(g, Gid):
            raise Unsupported('codes_get of something that is no message')
        if not self.e.branch(self.defined(g, k)):
            raise self.mod.KeyValueNotFoundError(f'Key/value not found: {k}')
        v = kval(g.t, k)
        if ktype is str and not isinstance(v, SStr):
            return SStr(z3.IntToStr(v.t))
        return v

    def getf(self, g, k):
        return self.get(g, k) if k != 'missingValue' else SReal(core.uf('key_missing', Z, R)(g.t))

    def array(self, g, k, *a):
        if k == 'values':
            r = value(g.t)
        elif k == 'bitmap':
            r = bitmap(g.t)
        else:
            r = sym_array(k, (sint(size(g.t)),))
        return r

    def release(self, g):
        self.released.append(g)

    def new_index(self, path, keys):
        if self.cannot_index:
            raise self.mod.GribInternalError('cannot index')
        self.index = Index(path, keys)
        return self.index

    def select(self, idx, k, v):
        if k not in idx.keys:
            raise _EccErr(f'{k} is not a key of the index')
        idx.sel[k] = v
        idx.pos = None
        idx.fresh = True

    def next(self, idx):
        if self.it is None:
            raise Unsupported('reading messages outside a loop under contract')
        if any(k not in idx.sel for k in idx.keys):
            raise _EccErr('index without a selection')
        return self.it.take(idx)

    def next_file(self, f, product_kind=None):
        if self.it is None:
            raise Unsupported('reading messages outside a loop under contract')
        return self.it.take(f)

    def module(self):
        kn = type('KeyValueNotFoundError', (_EccErr,), {})
        self.mod = ModelModule('eccodes', dict(KeyValueNotFoundError=kn, CodesInternalError=_EccErr, GribInternalError=_EccErr, CODES_PRODUCT_GRIB=1,
                                               codes_get_api_version=lambda *a: '2.30.0', codes_is_defined=lambda g, k: SBool(self.defined(g, k)),
                                               codes_get=self.get, codes_get_string=self.get, codes_get_long=self.get, codes_get_double=self.getf,
                                               codes_get_array=self.array, codes_get_double_array=self.array, codes_release=self.release,
                                               codes_index_new_from_file=self.new_index, codes_index_select=self.select, codes_new_from_index=self.next,
                                               codes_index_release=lambda i: setattr(i, 'released', True), codes_new_from_file=self.next_file,
                                               codes_grib_new_from_file=self.next_file))
        return self.mod


class File:
    def __init__(self):
        self.at0 = True

    def seek(self, p, *a):
        self.at0 = p == 0

    def close(self):
        pass


def grb_world(e, always=(), cannot_index=False, pert=False):
    n = e.fresh(Z, 'messages')
    e.assume(n >= 0)
    lib = Lib(e, n, always)
    L = loader({'eccodes': lambda l: lib.module()})
    L.load('pyg2p')
    lib.m = L.load('pyg2p.main.readers.grib')
    lib.L = L
    lib.cannot_index = cannot_index
    e.state['open'] = lambda *a, **k: File()
    r, ex = call(lib.m.GRIBReader, '/in/file.grib', pert)
    if ex is not None:
        e.prove('opening the reader does not fail', False, extxt(ex))
        raise PathEnd()
    lib.r = r
    return lib


def truth(x):
    """truth value of what the code returned, as a term"""
    if isinstance(x, bool):
        return T if x else F
    if isinstance(x, SBool):
        return x.t
    raise Unsupported(f'truth of {type(x).__name__}')
