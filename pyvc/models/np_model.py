"""Contracts assumed for numpy, numpy.ma and numexpr (validated by tools/validate_models.py)."""
import ast
import functools
import sys
import math
import z3

from .. import core
from ..core import SInt, SReal, SBool, Sym, lift, ew, ite, zb, zand, zor, znot, zimp, Unsupported, eng, liftable, F, T, R, Z, B, _simp
from ..arr import (Arr, asarr, elementwise, NOMASK, MASKED, full, reduce_, DType, dtcode, sym_array, bidx, bshape, dimeq, dimt, coerce, plain_of,
                   Selection, _prod, _cd)
from ..runtime import ModelModule, Missing, BT
from ..containers import iterm, sint, ISeq, VList, VDict, issym, SRange


def E(op):
    def f(*a, out=None, where=None, dtype=None, **k):
        if where is not None or (k and set(k) - {'casting'}):
            raise Unsupported(f'numpy.{op} with keywords')
        r = elementwise(op, *[plain_or_self(x) for x in a])
        if dtype is not None and isinstance(r, Arr):
            r = r.astype(dtype)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            r = asarr(r)
            out._owner_write(lambda i: (T, i), lambda i: r.at(*bidx(r.shape, i)), None)
            return out
        return r
    return f


def plain_or_self(x):
    if isinstance(x, (list, tuple)):
        return asarr(x)
    return x


def RD(what):
    def f(a, axis=None, **k):
        a = asarr(a) if not isinstance(a, Arr) else a
        if not a.shape:
            return a.at()
        return reduce_(what, a, axis)
    return f


def where(c, a=None, b=None):
    if a is None:
        return nonzero(c)
    c = plain_of(c) if isinstance(c, Arr) else c
    return elementwise('where', c, plain_of(asarr(a)) if not liftable(a) else a, plain_of(asarr(b)) if not liftable(b) else b)


def nonzero(c):
    c = asarr(c)
    if c._dt != 'b1':
        c = c != 0
    s = Selection.of(c)
    return tuple(Arr((s.n,), (lambda f: (lambda k: SInt(f(k), True)))(f), 'i8') for f in s.srcf)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, Arr):
        r = x.plain()
        if copy:
            r.alias = None
        return r if dtype is None else r.astype(dtype)
    r = asarr(x, dtype)
    if isinstance(r, Arr) and r.ismasked:
        r = r.plain()
    return r


def arange(*a, dtype=None, **k):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
        r = asarr(list(range(lo, hi, st)), 'i8')
        return r if dtype is None else r.astype(dtype)
    if st == 1 and not any(isinstance(v, (float, SReal)) for v in (lo, hi)):
        lo, hi = iterm(lo), iterm(hi)
        n = _simp(z3.If(hi > lo, hi - lo, 0))
        return Arr((sint(n),), lambda i: SInt(lo + i, True), 'i8')
    raise Unsupported('arange')


def indices(shape, dtype=None, **k):
    shape = tuple(_cd(x) for x in shape)

    def at(a, *i):
        r = SInt(i[-1], True)
        for d in reversed(range(len(i) - 1)):
            r = ite(a == d, SInt(i[d], True), r)
        return r
    return Arr((len(shape),) + shape, at, 'i8')


def array_split(a, n, axis=0):
    """n consecutive parts of equal size (the size of the axis must be a multiple of n, seen from its form)"""
    s = asarr(a).snap()
    axis = axis % len(s.shape)
    if isinstance(n, int) and isinstance(s.shape[axis], int):
        size, rem = divmod(s.shape[axis], n)
        out, lo = VList(), 0
        for q in range(n):
            m = size + (1 if q < rem else 0)
            out.append(s[(slice(None),) * axis + (slice(lo, lo + m),)])
            lo += m
        return out
    nt, N = _simp(dimt(n)), _simp(dimt(s.shape[axis]))
    size = None
    if nt.eq(N):
        size = z3.IntVal(1)
    elif z3.is_mul(N):
        rest = list(N.children())
        for k, c in enumerate(rest):
            if c.eq(nt):
                del rest[k]
                size = rest[0] if len(rest) == 1 else z3.Product(rest)
                break
    if size is None or not eng().known(nt >= 1):
        raise Unsupported('array_split')
    from ..arr import lin

    def chunk(q):
        return Arr(s.shape[:axis] + (sint(size),) + s.shape[axis + 1:], lambda *i: s.at(*i[:axis], lin(q, i[axis], size), *i[axis + 1:]), s._dt)
    return ISeq(nt, chunk)


def apply_along_axis(f, axis, a, *args, **kw):
    """f on every column (outcomes of f merged by case)"""
    s = asarr(a).snap()
    if axis != 0 or len(s.shape) != 2 or not isinstance(s.shape[0], int):
        raise Unsupported('apply_along_axis')
    e = eng()
    w = s.shape[1]
    memo = {}

    def column(j):
        k = j.get_id()
        if k in memo:
            return memo[k][1]
        hyp = zand(j >= 0, j < dimt(w))
        outs = e.summarize(lambda: f(Arr((s.shape[0],), lambda r: s.at(r, j), s._dt), *args, **kw), hyp)
        vals = None
        for c, v, ex in outs:
            if ex is not None:
                if e.known(zimp(hyp, znot(c))):
                    continue
                if 'branch' not in e.__dict__ and e.nested is None and e.branch(zand(hyp, c)):
                    raise ex
                e.assume(zimp(hyp, znot(c)))
                continue
            v = [asarr(v).at(z3.IntVal(r)) for r in range(asarr(v).shape[0])] if isinstance(v, (list, tuple, Arr)) else [v]
            v = [lift(x) for x in v]
            if vals is None:
                vals = v
            elif len(v) != len(vals):
                raise Unsupported('results of different length')
            else:
                vals = [ite(c, x, y) for x, y in zip(v, vals)]
        if vals is None:
            raise Unsupported('no outcome')
        memo[k] = (j, vals)
        return vals
    from ..arr import scode, rank
    first = column(e.fresh(Z, 'col'))
    code = max((scode(v) for v in first), key=rank)

    def at(r, j):
        vals = [coerce(v, code) for v in column(j)]
        x = vals[-1]
        for d in reversed(range(len(vals) - 1)):
            x = ite(r == d, vals[d], x)
        return x
    return Arr((len(first), w), at, code)


def _concat_seq(x):
    """equally long 1-d arrays of a sequence of symbolic length"""
    from ..arr import rowcol
    if x.guard is not None:
        raise Unsupported('concatenation of a filtered sequence')
    e = eng()
    j, j2 = e.fresh(Z, 'part'), e.fresh(Z, 'part')
    memo = {}

    def part(q):
        if q.get_id() not in memo:
            memo[q.get_id()] = (q, asarr(x.elem(q)))
        return memo[q.get_id()][1]
    a = part(j)
    if len(a.shape) != 1 or not _simp(z3.substitute(dimt(a.shape[0]), (j, j2))).eq(_simp(dimt(a.shape[0]))):
        raise Unsupported('concatenation of parts of different size')
    w = dimt(a.shape[0])
    rc = rowcol(w)

    def at(p):
        q, c = rc(p)
        return part(q).at(c)
    return Arr((sint(_simp(x.n * w)),), at, a._dt)


def concatenate(arrs, axis=0, **k):
    if isinstance(arrs, VList) and arrs.pre is not None:
        arrs = arrs.seq()
    if isinstance(arrs, ISeq) and axis == 0:
        return _concat_seq(arrs)
    arrs = [asarr(a) for a in arrs]
    masked = any(a.ismasked for a in arrs)
    arrs = [a.plain() for a in arrs]
    return _concat(arrs, axis)


def _concat(arrs, axis=0):
    if axis is None:
        arrs = [a.reshape(-1) for a in arrs]
        axis = 0
    arrs = [a.snap() for a in arrs]
    nd = len(arrs[0].shape)
    if axis < 0:
        axis += nd
    tot = 0
    starts = []
    for a in arrs:
        if len(a.shape) != nd:
            raise ValueError('all the input array dimensions must match')
        for k in range(nd):
            if k != axis and not dimeq(a.shape[k], arrs[0].shape[k]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
        starts.append(dimt(tot))
        tot = tot + a.shape[axis]
    code = max((a._dt for a in arrs), key=lambda c: {'b1': 0, 'i4': 2, 'i8': 3, 'f4': 4, 'f8': 5}.get(c, 9))

    def fn(*i):
        r = None
        for a, s in reversed(list(zip(arrs, starts))):
            j = i[:axis] + (_simp(i[axis] - s),) + i[axis + 1:]
            v = coerce(a.at(*j), code)
            r = v if r is None else ite(_simp(i[axis] < s + dimt(a.shape[axis])), v, r)
        return r
    mask = None
    if any(a.ismasked for a in arrs):
        def mask(*i):
            r = None
            for a, s in reversed(list(zip(arrs, starts))):
                j = i[:axis] + (_simp(i[axis] - s),) + i[axis + 1:]
                v = a.m(*j)
                r = v if r is None else z3.If(i[axis] < s + dimt(a.shape[axis]), v, r)
            return _simp(r)
    sh = arrs[0].shape[:axis] + (_cd(tot),) + arrs[0].shape[axis + 1:]
    return Arr(sh, fn, code, mask)


def append(a, v, axis=None):
    return concatenate([asarr(a).plain().reshape(-1), _r1(asarr(v))]) if axis is None else concatenate([a, v], axis)


def _r1(a):
    if a.shape == ():
        v = a.at()
        return Arr((1,), lambda i: v, a._dt, None if not a.ismasked else (lambda i: a.m()))
    return a.reshape(-1)


def stack(arrs, axis=0):
    arrs = [asarr(a) for a in arrs]
    if axis in (0,):
        return asarr([a.plain() for a in arrs])
    if axis in (-1, len(arrs[0].shape)):
        arrs = [a.snap() for a in arrs]
        r = asarr([a.plain() for a in arrs])
        return Arr(arrs[0].shape + (len(arrs),), lambda *i: r.at(i[-1], *i[:-1]), r._dt)
    raise Unsupported('stack axis')


def vstack(arrs):
    if isinstance(arrs, Arr):
        arrs = list(arrs)
    return concatenate([a if len(a.shape) > 1 else a.reshape((1, a.shape[0])) for a in map(asarr, arrs)], 0)


def hstack(arrs):
    if isinstance(arrs, Arr):
        arrs = list(arrs)
    arrs = [asarr(a) for a in arrs]
    return concatenate([_r1(a) if len(a.shape) < 1 else a for a in arrs], 0 if len(arrs[0].shape) <= 1 else 1)


def column_stack(arrs):
    return stack([asarr(a) for a in arrs], -1)


class ErrState:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class NpFloat:
    """numpy scalar types usable as constructor / dtype"""

    def __init__(self, code, name):
        self.code, self.__name__ = code, name

    def __call__(self, x=0):
        if isinstance(x, Arr):
            return x.astype(self.code)
        if isinstance(x, (list, tuple)):
            return asarr(x, self.code)
        if isinstance(x, str):
            x = float(x)
        return coerce(x, self.code)

    def __vc_instancecheck__(self, x):
        return isinstance(x, (SReal, SInt)) and x.np


class NdArray:
    @staticmethod
    def __vc_instancecheck__(x): return isinstance(x, Arr)
    def __call__(self, *a, **k): raise Unsupported('ndarray()')


class MaskedArrayT:
    __name__ = 'MaskedArray'

    @staticmethod
    def __vc_instancecheck__(x): return isinstance(x, Arr) and x.ismasked or x is MASKED

    def __call__(self, *a, **k): return masked_array(*a, **k)


def isscalar(x):
    return liftable(x) and not isinstance(x, Arr) or isinstance(x, str)


def in1d(a, b):
    raise Unsupported('in1d')


def unique(*a, **k):
    raise Unsupported('unique')


def np_sum(a, axis=None, **k):
    if not isinstance(a, Arr) and isinstance(a, (list, tuple)):
        a = asarr(a)
    r = reduce_('sum', a, axis)
    if k.get('keepdims'):
        if axis is None:
            raise Unsupported('sum keepdims')
        axis = axis % len(a.shape)
        r = r[(slice(None),) * axis + (None,)] if isinstance(r, Arr) else r
    return r


def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = asarr(a), asarr(b)
    d = elementwise('abs', elementwise('-', a, b))
    lim = elementwise('+', elementwise('*', elementwise('abs', b), rtol), atol)
    r = elementwise('<=', d, lim)
    return r.all() if r.shape else core.tobool(r.at())


def einsum(spec, *ops, **k):
    """sum of products for subscripts with one summed axis of known length (a masked operand counts with its data)"""
    if not isinstance(spec, str) or '->' not in spec or '...' in spec:
        raise Unsupported('einsum form')
    lhs, out = spec.replace(' ', '').split('->')
    ins = lhs.split(',')
    arrs = [asarr(o).plain().snap() for o in ops]
    if len(ins) != len(arrs) or any(len(a) != len(x.shape) for a, x in zip(ins, arrs)):
        raise ValueError('einsum operands do not match the subscripts')
    dims = {}
    for a, x in zip(ins, arrs):
        for c, d in zip(a, x.shape):
            if c in dims:
                if not dimeq(dims[c], d):
                    raise ValueError('operands could not be broadcast together with remapped shapes')
            else:
                dims[c] = d
    summed = [c for c in dims if c not in out]
    if any(not isinstance(dims[c], int) for c in summed):
        raise Unsupported('einsum over a symbolic axis')
    import itertools as it

    def fn(*i):
        env = dict(zip(out, i))
        tot = None
        for combo in it.product(*[range(dims[c]) for c in summed]):
            env.update({c: z3.IntVal(v) for c, v in zip(summed, combo)})
            t = None
            for a, x in zip(ins, arrs):
                v = x.at(*[env[c] for c in a])
                t = v if t is None else ew('*', t, v)
            tot = t if tot is None else ew('+', tot, t)
        return coerce(tot, code)
    code = max((x._dt for x in arrs), key=lambda c: {'b1': 0, 'i4': 2, 'i8': 3, 'f4': 4, 'f8': 5}.get(c, 9))
    return Arr(tuple(dims[c] for c in out), fn, code)


def argsort(a, axis=-1, kind=None, order=None, **k):
    """a permutation that sorts (equal elements in any order)"""
    s = asarr(a).snap()
    if axis is None:
        s = s.reshape(-1)
    if len(s.shape) != 1 or not isinstance(s.shape[0], int) or s.shape[0] > 5 or not s.nomask or k:
        raise Unsupported('argsort')
    e = eng()
    n = s.shape[0]
    left = list(range(n))
    out = []
    v = [s.at(z3.IntVal(j)) for j in range(n)]
    if any(not z3.is_false(_simp(zb(getattr(x, 'nan', F)))) for x in v):
        raise Unsupported('argsort of NaN')
    while left:
        j = left[e.choose(len(left))] if len(left) > 1 else left[0]
        for o in left:
            if o != j:
                e.assume(zb(v[j] <= v[o]))
        left.remove(j)
        out.append(j)
    if not e.feasible(T):
        raise core.PathEnd()
    return array(out)


def cross(a, b, **k):
    a, b = asarr(a).snap(), asarr(b).snap()
    if a.shape != (2,) or b.shape != (2,) or k:
        raise Unsupported('cross')
    i = [z3.IntVal(0), z3.IntVal(1)]
    return ew('-', ew('*', a.at(i[0]), b.at(i[1])), ew('*', a.at(i[1]), b.at(i[0])))


def np_load(*a, **k):
    from . import world
    return world.np_load(*a, **k)


def np_save(*a, **k):
    from . import world
    return world.np_save(*a, **k)


def np_rec(*a, **k):
    from . import world
    return world.fromarrays(*a, **k)


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    s = asarr(x).snap()
    if posinf is not None or neginf is not None or s._dt == 'b1':
        raise Unsupported('nan_to_num')
    v = lift(nan)
    big = z3.RealVal('179769313486231570000000000000000000000')

    def fn(*i):
        a = core.toreal(s.at(*i))
        t = z3.If(a.nan, core.toreal(v).t, z3.If(a.inf > 0, big, z3.If(a.inf < 0, -big, a.t)) if not z3.is_int_value(_simp(a.inf)) else a.t)
        return SReal(_simp(t), F, core.I0, True)
    return Arr(s.shape, fn, s._dt)


def mean(a, axis=None, **k):
    """mean of all elements: some number that depends on the elements only (of numbers: between the least and the greatest)"""
    s = asarr(a).snap()
    e = eng()
    if axis is not None or k:
        raise Unsupported('mean over an axis')
    if all(isinstance(d, int) for d in s.shape):
        return asarr(s).mean()
    w = tuple(e.fresh(Z, 'meanx') for _ in s.shape)
    cache = e.state.setdefault('means', [])
    for s0, r in cache:
        if len(s0.shape) == len(s.shape) and all(dimeq(x, y) for x, y in zip(s0.shape, s.shape)):
            a0, a1 = s0.at(*w), s.at(*w)
            if e.known(zimp(s.inrange(*w), zand(a0.t == a1.t, a0.nan == a1.nan, a0.inf == a1.inf))):
                return r
    r = SReal(e.fresh(R, 'mean'), F, core.I0, True)
    cache.append((s, r))
    return r


def divide(a, b, out=None, where=None, **k):
    if k:
        raise Unsupported('divide keywords')
    if out is None and where is None:
        return elementwise('/', a, b)
    if where is None or out is None:
        raise Unsupported('divide without out')
    q, o, c = elementwise('/', a, b).snap(), asarr(out), asarr(where).snap()
    o0 = o.snap()
    e = eng()

    def fn(*i):
        w = zb(c.at(*bidx(c.shape, i)))
        if e.nested is None:
            w = T if e.known(w) else F if e.known(znot(w)) else w
        return q.at(*bidx(q.shape, i)) if z3.is_true(w) else o0.at(*i) if z3.is_false(w) else ite(w, q.at(*bidx(q.shape, i)), o0.at(*i))
    o[...] = Arr(o.shape, fn, o._dt)
    return out


def as_strided(x, shape=None, strides=None, **k):
    s = asarr(x).snap()
    if len(s.shape) != 1 or k or len(shape) != len(strides):
        raise Unsupported('as_strided')
    shape = tuple(_cd(d) for d in shape)
    st = [iterm(v) for v in strides]
    pos = lambda i: _simp(z3.Sum(*[a * b for a, b in zip(i, st)]))
    e = eng()
    r = Arr(shape, lambda *i: s.at(pos(i)), s._dt)
    w = r.fresh_index('strd')
    e.prove('as_strided stays within the buffer', zand(pos(w) >= 0, pos(w) < dimt(s.shape[0])))
    return r


def argpartition(a, kth, axis=-1, **k):
    s = asarr(a).snap()
    e = eng()
    kth = core.concrete(lift(kth)) if not isinstance(kth, int) else kth
    if k or len(s.shape) != 2 or axis not in (1, -1) or not isinstance(s.shape[1], int) or kth is None:
        raise Unsupported('argpartition')
    n = s.shape[1]
    if not -n <= kth < n:
        raise ValueError('kth out of bounds')
    kth %= n
    g = e.fresh_fn('argpart', Z, Z, Z)
    done = {}

    def fn(p, j):
        if p.get_id() not in done:
            done[p.get_id()] = p
            ix = [g(p, z3.IntVal(c)) for c in range(n)]
            v = [s.at(p, z3.IntVal(c)).t for c in range(n)]
            pick = lambda i: functools.reduce(lambda acc, c: z3.If(i == c, v[c], acc), range(1, n), v[0])
            kv = e.fresh(R, 'kthval')
            facts = [zand(i >= 0, i < n) for i in ix] + [z3.Distinct(*ix), kv == pick(ix[kth])]
            facts += [zor(*[i == c for i in ix]) for c in range(n)]
            facts += [pick(ix[c]) <= kv for c in range(kth)] + [pick(ix[c]) >= kv for c in range(kth + 1, n)]
            e.axiom(('argpart', g.name(), p.get_id()), zand(*facts))
        return SInt(g(p, j), True)
    e.state.setdefault('argpart', []).append(fn)
    return Arr(s.shape, fn, 'i8')


def make_numpy(loader):
    def fill_like(v):
        def f(a, dtype=None, **k):
            a = asarr(a)
            r = full(a.shape, v, dtype or a._dt)
            if a.ismasked:
                s = a.snap()
                r._mask = s._mask
            return r
        return f
    def broadcast_to(a, shape, **k):
        s = asarr(a).snap()
        shape = tuple(_cd(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        m = len(s.shape)
        ok = m <= len(shape) and all((isinstance(x, int) and x == 1) or dimeq(x, y) for x, y in zip(s.shape, shape[len(shape) - m:]))
        if not ok:
            raise ValueError('operands could not be broadcast together with remapped shape')
        return Arr(shape, lambda *i: s.at(*bidx(s.shape, i)), s._dt)
    d = dict(
        argsort=argsort, cross=cross, broadcast_to=broadcast_to, indices=indices, array_split=array_split, apply_along_axis=apply_along_axis,
        zeros=lambda shape, dtype=None, **k: full(shape, 0.0 if dtype is None else 0, dtype or 'f8'),
        ones=lambda shape, dtype=None, **k: full(shape, 1.0 if dtype is None else 1, dtype or 'f8'),
        full=lambda shape, v, dtype=None, **k: full(shape, v, dtype),
        empty=lambda shape, dtype=None, **k: sym_array('empty', tuple(_cd(x) for x in (shape if isinstance(shape, (tuple, list)) else (shape,))), dtcode(dtype)),
        zeros_like=fill_like(0), ones_like=fill_like(1),
        full_like=lambda a, v, dtype=None, **k: full(asarr(a).shape, v, dtype or asarr(a)._dt),
        empty_like=lambda a, dtype=None, **k: sym_array('empty', asarr(a).shape, dtcode(dtype) if dtype else asarr(a)._dt),
        array=array, asarray=lambda x, dtype=None, **k: x if isinstance(x, Arr) and dtype is None and not x.ismasked else array(x, dtype, copy=False),
        asanyarray=lambda x, dtype=None, **k: x if isinstance(x, Arr) and dtype is None else array(x, dtype),
        ascontiguousarray=lambda x, dtype=None: x if isinstance(x, Arr) and dtype is None else array(x, dtype),
        arange=arange, where=where, nonzero=nonzero, concatenate=concatenate, append=append, stack=stack, vstack=vstack, hstack=hstack,
        column_stack=column_stack,
        isnan=E('isnan'), isfinite=E('isfinite'), isinf=E('isinf'), sqrt=E('sqrt'), sin=E('sin'), cos=E('cos'), tan=E('tan'), arcsin=E('arcsin'),
        arccos=E('arccos'), arctan=E('arctan'), arctan2=E('arctan2'), exp=E('exp'), log=E('log'), radians=E('radians'), degrees=E('degrees'),
        deg2rad=E('radians'), rad2deg=E('degrees'), abs=E('abs'), absolute=E('abs'), fabs=E('abs'), floor=E('floor'), ceil=E('ceil'), sign=E('sign'),
        rint=E('round'), power=E('**'), square=lambda a: elementwise('*', a, a), negative=E('neg'),
        add=E('+'), subtract=E('-'), multiply=E('*'), divide=divide, true_divide=E('/'), mod=E('%'), remainder=E('%'),
        maximum=E('max'), minimum=E('min'), logical_and=E('and'), logical_or=E('or'), logical_not=E('not'), logical_xor=E('xor'), invert=E('not'),
        bitwise_and=E('and'), bitwise_or=E('or'), bitwise_not=E('not'),
        equal=E('=='), not_equal=E('!='), less=E('<'), greater=E('>'), less_equal=E('<='), greater_equal=E('>='),
        min=RD('min'), max=RD('max'), amin=RD('min'), amax=RD('max'), any=RD('any'), all=RD('all'), sum=np_sum,
        nan_to_num=nan_to_num, mean=mean, argpartition=argpartition, lib=ModelModule('numpy.lib', dict(stride_tricks=ModelModule('numpy.lib.stride_tricks', dict(as_strided=as_strided)))),
        einsum=einsum, load=np_load, save=np_save, rec=ModelModule('numpy.rec', dict(fromarrays=np_rec)), clip=lambda a, lo, hi, **k: elementwise('min', elementwise('max', a, lo), hi),
        ravel=lambda a, **k: asarr(a).reshape(-1), reshape=lambda a, s, **k: asarr(a).reshape(s), transpose=lambda a: asarr(a).T,
        shape=lambda a: () if a is MASKED else asarr(a).shape, size=lambda a: asarr(a).size, ndim=lambda a: asarr(a).ndim, copy=lambda a: asarr(a).copy(),
        expand_dims=lambda a, axis: asarr(a)[(slice(None),) * (axis % (len(asarr(a).shape) + 1)) + (None,)],
        nan=math.nan, NaN=math.nan, NAN=math.nan, inf=math.inf, pi=SReal(core.PI, F, core.I0, False), newaxis=None,
        errstate=ErrState, seterr=lambda **k: {}, isscalar=isscalar, allclose=allclose,
        float64=NpFloat('f8', 'float64'), float32=NpFloat('f4', 'float32'), float_=NpFloat('f8', 'float64'), double=NpFloat('f8', 'float64'),
        int64=NpFloat('i8', 'int64'), int32=NpFloat('i4', 'int32'), int_=NpFloat('i8', 'int64'), intp=NpFloat('i8', 'int64'), bool_=NpFloat('b1', 'bool_'),
        integer=NpFloat('i8', 'integer'), floating=NpFloat('f8', 'floating'),
        ndarray=NdArray(), dtype=lambda x, *a, **k: DType(dtcode(x)), array_equal=lambda a, b: bool((asarr(a) == asarr(b)).all()),
        copyto=lambda dst, src, **k: dst.__setitem__(Ellipsis, src), c_=Missing('numpy.c_'),
        __version__='1.26.4',
    )
    m = ModelModule('numpy', d)
    m.ma = loader.load('numpy.ma')
    return m


# ------------------------------------------------------------------ numpy.ma
def masked_where(cond, a, copy=True):
    a = a if isinstance(a, Arr) else asarr(a)
    c = F if cond is None else cond
    if cond is None or cond is NOMASK or cond is False:
        c = None
    else:
        c = asarr(cond).snap() if not isinstance(cond, Arr) else cond.snap()
        if c.shape:
            ok = len(c.shape) == len(a.shape) and all(dimeq(x, y) for x, y in zip(c.shape, a.shape))
            if not ok:
                raise IndexError('Inconsistent shape between the condition and the input')
    s = a.snap()
    if c is None:
        mask = NOMASK if s.nomask else s._mask
    else:
        mask = lambda *i: zor(s.m(*i), core.tobool(c.at(*bidx(c.shape, i))))
    r = Arr(s.shape, s._fn, s._dt, mask, s.fillv)
    if not copy:
        r.alias = a
    return r


def masked_array(data, mask=NOMASK, dtype=None, copy=False, fill_value=None, **k):
    if k:
        raise Unsupported('masked_array keywords')
    a = asarr(data)
    s = a.snap()
    mk = s._mask if s.ismasked else NOMASK
    if mask is not NOMASK and mask is not None:
        if mask is False:
            mm = (lambda *i: F)
        elif mask is True:
            mm = (lambda *i: T)
        else:
            c = asarr(mask).snap()
            if c.shape and not (len(c.shape) == len(s.shape) and all(dimeq(x, y) for x, y in zip(c.shape, s.shape))):
                raise ValueError('Mask and data not compatible')
            mm = lambda *i: zb(core.tobool(c.at(*bidx(c.shape, i))))
        mk0 = mk
        mk = mm if mk0 is NOMASK else (lambda *i: zor(mk0(*i), mm(*i)))
    r = Arr(s.shape, s._fn, s._dt, mk, fill_value if fill_value is not None else s.fillv)
    return r if dtype is None else r.astype(dtype)


def masked_values(x, value, copy=True, shrink=True, **k):
    """floats: |x - value| <= 1e-8 + 1e-5*|value| is masked; ints: exact"""
    a = asarr(x).snap()
    v = value if not isinstance(value, Arr) else value.item()
    if a._dt in ('f8', 'f4'):
        d = elementwise('abs', elementwise('-', a.plain(), v))
        lim = ew('+', ew('*', ew('abs', lift(v)), lift(1e-5)), lift(1e-8))
        c = elementwise('<=', d, lim)
    else:
        c = elementwise('==', a.plain(), v)
    r = masked_where(c, a)
    r.fillv = v
    # shrink: without any masked element the result has no mask
    if shrink and eng().choose(2):
        s = r.snap()
        q = [z3.FreshConst(core.Z, 'sh') for _ in s.shape]
        eng().assume(z3.ForAll(q, zimp(s.inrange(*q), znot(s.m(*q)))) if q else znot(s.m()))
        r = Arr(a.shape, a._fn, a._dt, NOMASK, v)
    return r


def masked_equal(x, value, copy=True):
    a = asarr(x)
    r = masked_where(elementwise('==', a.plain(), value), a)
    r.fillv = value
    return r


def masked_invalid(a, copy=True):
    a = asarr(a)
    return masked_where(elementwise('not', elementwise('isfinite', a.plain())), a)


def ma_filled(a, fv=None):
    if isinstance(a, Arr) and a.ismasked:
        return a.filled(fv)
    return a if isinstance(a, Arr) else asarr(a)


def getmask(a):
    return a.mask if isinstance(a, Arr) and a.ismasked else NOMASK


def getmaskarray(a):
    a = asarr(a)
    s = a.snap()
    return Arr(s.shape, lambda *i: SBool(s.m(*i)), 'b1')


def ma_where(c, a=None, b=None):
    if a is None:
        raise Unsupported('ma.where(c)')
    r = elementwise('where', plain_of(asarr(c)), plain_of(asarr(a)), plain_of(asarr(b)))
    a, b, c = [asarr(x).snap() for x in (a, b, c)]
    r._mask = lambda *i: zor(c.m(*bidx(c.shape, i)), zb(ite(c.at(*bidx(c.shape, i)), SBool(a.m(*bidx(a.shape, i))), SBool(b.m(*bidx(b.shape, i))))))
    return r


def ma_append(a, b, axis=None):
    a, b = asarr(a), asarr(b)
    r = _concat([_r1(a).snap(), _r1(b).snap()], 0) if axis is None else _concat([a, b], axis)
    if r._mask is None:
        r._mask = NOMASK
    return r


def ma_concatenate(arrs, axis=0):
    r = _concat([asarr(a) for a in arrs], axis)
    if r._mask is None:
        r._mask = NOMASK
    return r


def ma_array(x, mask=NOMASK, dtype=None, copy=False, fill_value=None, **k):
    if isinstance(x, (list, tuple)) and x and all(isinstance(v, Arr) for v in x) and mask is NOMASK and False:
        pass
    return masked_array(x, mask=mask, dtype=dtype, copy=copy, fill_value=fill_value)


def mask_or(a, b, **k):
    if a is NOMASK or a is None:
        return b
    if b is NOMASK or b is None:
        return a
    return elementwise('or', a, b)


def is_masked(a):
    if not isinstance(a, Arr) or a.nomask:
        return False
    return getmaskarray(a).any()


def count_masked(a, axis=None):
    '''some number between 0 and the number of cells, 0 without a mask'''
    a = asarr(a)
    if a.nomask:
        return 0
    n = SInt(eng().fresh(Z, 'count_masked'))
    eng().assume(n.t >= 0)
    return n


def make_ma(loader):
    mat = MaskedArrayT()
    d = dict(masked_where=masked_where, masked_array=masked_array, array=ma_array, masked_values=masked_values, masked_equal=masked_equal,
             masked_invalid=masked_invalid, filled=ma_filled, getmask=getmask, getmaskarray=getmaskarray, where=ma_where, append=ma_append,
             concatenate=ma_concatenate, MaskedArray=mat, nomask=NOMASK, masked=MASKED, mask_or=mask_or, is_masked=is_masked,
             isMaskedArray=lambda x: isinstance(x, Arr) and x.ismasked, isMA=lambda x: isinstance(x, Arr) and x.ismasked,
             count_masked=count_masked,
             set_fill_value=lambda a, v: a.set_fill_value(v) if a.ismasked else None,
             asarray=lambda a, dtype=None, **k: masked_array(a), asanyarray=lambda a, **k: a if isinstance(a, Arr) and a.ismasked else masked_array(a),
             getdata=lambda a, **k: asarr(a).plain(),
             stack=lambda arrs, axis=0: _ma_stack(arrs, axis), core=ModelModule('numpy.ma.core', {'MaskedArray': mat, 'nomask': NOMASK}),
             zeros=lambda shape, dtype=None, **k: masked_array(full(shape, 0.0, dtype or 'f8')),
             masked_less=lambda a, v, copy=True: masked_where(elementwise('<', asarr(a).plain(), v), a),
             masked_greater=lambda a, v, copy=True: masked_where(elementwise('>', asarr(a).plain(), v), a))
    return ModelModule('numpy.ma', d)


def _ma_stack(arrs, axis=0):
    if axis != 0:
        raise Unsupported('ma.stack axis')
    arrs = [asarr(a).snap() for a in arrs]
    r = asarr([a.plain() for a in arrs])
    if any(not a.nomask for a in arrs):
        def mask(i, *rest):
            i = _simp(i)
            x = arrs[-1].m(*rest)
            for k in range(len(arrs) - 2, -1, -1):
                x = z3.If(i == k, arrs[k].m(*rest), x)
            return _simp(x)
        r._mask = mask
    else:
        r._mask = NOMASK
    return r


# ------------------------------------------------------------------ numexpr
class NE:
    FUN = {'where': 'where', 'sqrt': 'sqrt', 'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'arcsin': 'arcsin', 'arccos': 'arccos', 'arctan': 'arctan',
           'arctan2': 'arctan2', 'exp': 'exp', 'log': 'log', 'abs': 'abs', 'floor': 'floor', 'ceil': 'ceil'}
    BIN = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.Pow: '**', ast.Mod: '%', ast.BitAnd: 'and', ast.BitOr: 'or', ast.BitXor: 'xor'}
    CMP = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}

    def __init__(self, look):
        self.look = look

    def ev(self, n):
        if isinstance(n, ast.Expression):
            return self.ev(n.body)
        if isinstance(n, ast.Constant):
            return n.value
        if isinstance(n, ast.Name):
            if n.id in ('True', 'False'):
                return n.id == 'True'
            v = self.look(n.id)
            if isinstance(v, Arr):
                return v.plain()
            if isinstance(v, (list, tuple)):
                return asarr(v)
            if v is None:
                raise ValueError('unsupported expression type: None')
            return v
        if isinstance(n, ast.BinOp):
            return elementwise(self.BIN[type(n.op)], self.ev(n.left), self.ev(n.right))
        if isinstance(n, ast.UnaryOp):
            v = self.ev(n.operand)
            return elementwise('neg', v) if isinstance(n.op, ast.USub) else elementwise('not', v) if isinstance(n.op, (ast.Invert,)) else v
        if isinstance(n, ast.Compare):
            if len(n.ops) != 1:
                raise NotImplementedError('chained comparison')
            return elementwise(self.CMP[type(n.ops[0])], self.ev(n.left), self.ev(n.comparators[0]))
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
            args = [self.ev(a) for a in n.args]
            if n.func.id in self.FUN:
                return elementwise(self.FUN[n.func.id], *args)
            if n.func.id.startswith('vc'):
                return opaque(n.func.id, args)
            raise TypeError(f"'{n.func.id}' is not a numexpr function")
        raise Unsupported(f'numexpr {ast.dump(n)[:60]}')


def opaque(name, args):
    """user formula of unknown text: an arbitrary function of its arguments"""
    arrs = [asarr(a).snap() for a in args]
    sh = bshape([a.shape for a in arrs])

    def fn(*i):
        vs = [core.toreal(a.at(*bidx(a.shape, i))) for a in arrs]
        return apply_opaque(name, vs)
    return Arr(sh, fn, 'f8')


def apply_opaque(name, vs):
    vs = [core.toreal(lift(v)) for v in vs]
    k = len(vs)
    terms, sorts = [], []
    for v in vs:
        terms += [v.t, zb(v.nan), v.inf]
        sorts += [R, B, Z]
    # canonical payload for special values
    canon = []
    for v in vs:
        canon += [v.t if v.finite_surely else z3.If(zor(v.nan, v.inf != 0), z3.RealVal(0), v.t), zb(v.nan), v.inf if z3.is_int_value(v.inf) else z3.If(v.nan, core.I0, v.inf)]
    t = core.uf(name, *sorts, R)(*canon)
    nan = core.uf(name + '.nan', *sorts, B)(*canon)
    inf = core.uf(name + '.inf', *sorts, Z)(*canon)
    e = eng()
    e.keep += [t, nan, inf]
    e.axiom(('opq', inf.get_id()), zand(inf >= -1, inf <= 1))
    return SReal(t, nan, inf, True)


def ne_evaluate(ex, local_dict=None, global_dict=None, out=None, order='K', casting='safe', **k):
    if not isinstance(ex, str):
        raise Unsupported('numexpr on a symbolic expression')
    fr = sys._getframe(1)
    loc = local_dict if local_dict is not None else fr.f_locals
    glo = global_dict if global_dict is not None else fr.f_globals

    def look(n):
        if n in loc:
            return loc[n]
        if n in glo:
            return glo[n]
        raise KeyError(n)
    try:
        tree = ast.parse(ex.strip(), mode='eval')
    except SyntaxError:
        raise SyntaxError('numexpr expression')
    r = NE(look).ev(tree)
    r = asarr(r)
    if out is not None:
        for a, b in zip(r.shape, out.shape):
            if not dimeq(a, b):
                raise ValueError('non-broadcastable output')
        keep = out.snap()       # numexpr writes the data; a mask stays as it was
        out._owner_write(lambda i: (T, i), lambda i: r.at(*bidx(r.shape, i)), None if keep.nomask else (lambda i: keep.m(*i)))
        return out
    return r


def make_ne(loader):
    return ModelModule('numexpr', dict(evaluate=ne_evaluate, set_num_threads=lambda *a: 1))


MODELS = {'numpy': make_numpy, 'numpy.ma': make_ma, 'numexpr': make_ne}
