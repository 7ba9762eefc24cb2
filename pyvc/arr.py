"""Symbolic n-dimensional arrays (numpy ndarray and numpy.ma.MaskedArray).

An array is a shape (python ints or symbolic ints), an element function over index
terms, and - for masked arrays - a mask (NOMASK or a function over index terms).
Elements of float arrays are mathematical reals with NaN/infinity flags.
"""
import itertools
import z3
from . import core
from .core import (SInt, SReal, SBool, Sym, lift, zb, zand, zor, znot, zimp, Unsupported, Z, B, R, T, F, eng, liftable, concrete,
                   _simp, same, ew, ite)
from .containers import iterm, sint, ISeq, VList, Born, SRange, issym, mkrange


class _NoMask:
    """numpy.ma.nomask"""
    __vc_nomask__ = True

    def __bool__(self): return False
    def __repr__(self): return 'nomask'
    def __eq__(self, o): return o is self or o is False
    __hash__ = object.__hash__
    def any(self, *a): return False
    def all(self, *a): return False
    def __or__(self, o): return self if o is self else o
    __ror__ = __or__
    def __and__(self, o): return self
    __rand__ = __and__
    def __invert__(self): return SBool(T)
    @property
    def shape(self): return ()


NOMASK = _NoMask()
MAXEXP = 400


def dimt(d):
    return iterm(d)


def dimeq(a, b):
    """entailed / branched equality of dimensions"""
    if a is b:
        return True
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    ta, tb = _simp(dimt(a)), _simp(dimt(b))
    if ta.eq(tb):
        return True
    return eng().branch(ta == tb)


def bshape(shapes):
    """broadcast shape"""
    n = max([len(s) for s in shapes] or [0])
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0:
                continue
            d = s[j]
            if isinstance(d, int) and d == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = d
            elif not dimeq(cur, d):
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bidx(shape, idx):
    """index terms of an operand of `shape` for the broadcast index idx"""
    n = len(shape)
    ii = idx[len(idx) - n:] if n else ()
    return tuple(z3.IntVal(0) if (isinstance(d, int) and d == 1) else i for d, i in zip(shape, ii))


DT_KIND = {'f8': 'f', 'f4': 'f', 'i8': 'i', 'i4': 'i', 'b1': 'b', 'u1': 'i', 'O': 'O', 'S': 'S'}


class DType:
    def __init__(self, name):
        self.name = {'f8': 'float64', 'f4': 'float32', 'i8': 'int64', 'i4': 'int32', 'b1': 'bool'}.get(name, name)
        self.code = name
        self.kind = DT_KIND.get(name, 'f')
        self.itemsize = int(name[1]) if name[1:].isdigit() else 8
        self.str = '<' + name
        self.type = self

    def __eq__(self, o):
        try:
            return dtcode(o) == self.code
        except Unsupported:
            return False
    def __hash__(self): return hash(self.code)
    def __repr__(self): return f"dtype('{self.name}')"
    __str__ = lambda s: s.name
    def __call__(self, x=0):
        x = lift(x)
        if self.kind == 'f':
            r = core.toreal(x)
            return SReal(r.t, r.nan, r.inf, True)
        return SInt(iterm(ew('trunc', x)) if isinstance(x, SReal) else core.toint(x).t, True)


def dtcode(d):
    if isinstance(d, DType):
        return d.code
    if d is None:
        return 'f8'
    if isinstance(d, str):
        d = d.lstrip('<>=|')
        m = {'f8': 'f8', 'f4': 'f4', 'f': 'f4', 'd': 'f8', 'i8': 'i8', 'i4': 'i4', 'b1': 'b1', '?': 'b1', 'float64': 'f8', 'float32': 'f4', 'float': 'f8',
             'int64': 'i8', 'int32': 'i4', 'int': 'i8', 'bool': 'b1', 'O': 'O', 'i': 'i4', 'object': 'O'}
        if d in m:
            return m[d]
    n = getattr(d, '__name__', None)
    if n in ('float', 'float64', 'double', 'float_'): return 'f8'
    if n in ('float32',): return 'f4'
    if n in ('int', 'int64', 'int_', 'intp'): return 'i8'
    if n in ('int32',): return 'i4'
    if n in ('bool', 'bool_'): return 'b1'
    if n in ('object', 'object_'): return 'O'
    raise Unsupported(f'dtype {d!r}')


def rank(code):
    return {'b1': 0, 'u1': 1, 'i4': 2, 'i8': 3, 'f4': 4, 'f8': 5}.get(code, 9)


def coerce(x, code):
    x = lift(x)
    k = DT_KIND[code]
    if k == 'f':
        r = core.toreal(x)
        return r if r.np else SReal(r.t, r.nan, r.inf, True)
    if k == 'i':
        if isinstance(x, SReal):
            return SInt(_simp(z3.ToInt(ew('trunc', x).t)), True)
        return SInt(core.toint(x).t, True)
    if k == 'b':
        return core.tobool(x)
    raise Unsupported('coerce ' + code)


def scode(x):
    x = lift(x)
    if isinstance(x, SBool): return 'b1'
    if isinstance(x, SInt): return 'i8'
    return 'f8'


class Arr(Born):
    __vc_arr__ = True
    __array_priority__ = 100

    def __init__(self, shape, fn, dtype='f8', mask=None, fill=None, base=None):
        self.shape = tuple(shape)
        self._fn = fn
        self._dt = dtype
        self._mask = mask           # None: plain ndarray; NOMASK; or fn
        self.fillv = fill
        self.base = base            # (Arr, fwd, inv) for views
        self.frozen = None          # name of an input that must not be modified
        self.alias = None           # array whose data buffer this one shares
        self._tick()

    def _log(self):
        a = self
        while a is not None:
            if a.frozen:
                eng().fail(f'frame: {a.frozen} is not modified')
                raise core.PathEnd()
            if a is not self and a.alias is None:
                raise Unsupported('write through shared data')
            a = a.alias if a.base is None else a.base[0]
        Born._log(self)

    # ------------------------------------------------ element access (spec level)
    def at(self, *idx):
        idx = tuple(iterm(i) for i in idx)
        if self.base is not None:
            b, fwd, inv = self.base
            return b.at(*fwd(idx))
        return self._fn(*idx)

    def m(self, *idx):
        """mask at idx as z3 Bool"""
        idx = tuple(iterm(i) for i in idx)
        if self.base is not None:
            b, fwd, inv = self.base
            return b.m(*fwd(idx))
        if self._mask is None or self._mask is NOMASK:
            return F
        return zb(self._mask(*idx))

    @property
    def ismasked(self):
        return (self.base[0].ismasked if self.base is not None else self._mask is not None)

    @property
    def nomask(self):
        return (self.base[0].nomask if self.base is not None else self._mask is None or self._mask is NOMASK)

    def inrange(self, *idx):
        return zand(*[zand(iterm(i) >= 0, iterm(i) < dimt(d)) for i, d in zip(idx, self.shape)])

    def fresh_index(self, name='i'):
        e = eng()
        ix = tuple(e.fresh(Z, name) for _ in self.shape)
        e.assume(self.inrange(*ix))
        return ix

    # ------------------------------------------------ python protocol
    def concrete_rows(self):
        return len(self.shape) > 0 and isinstance(self.shape[0], int)

    def rows(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        if self.concrete_rows():
            return [self[k] for k in range(self.shape[0])]
        return ISeq(dimt(self.shape[0]), lambda j: self._get((SInt(j) if isinstance(j, z3.ExprRef) else j,)))

    def __iter__(self):
        r = self.rows()
        if isinstance(r, list):
            return iter(r)
        raise Unsupported('native iteration over a symbolic array')

    def length(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    @property
    def ndim(self): return len(self.shape)

    @property
    def size(self):
        r = 1
        for d in self.shape:
            r = r * d
        return r

    @property
    def dtype(self): return DType(self._dt)

    @property
    def data(self):
        return Arr(self.shape, None, self._dt, None, base=(self.plain(), lambda i: i, lambda i: (T, i))) if False else self.plain()

    def plain(self):
        """the underlying data (shares nothing; only read in the modelled code)"""
        me = self.snap()
        r = Arr(self.shape, me._fn, self._dt, None)
        r.alias = self
        return r

    def snap(self):
        """immutable copy of the current contents"""
        if self.base is not None:
            b, fwd, inv = self.base
            s = b.snap()
            mk = s._mask
            if mk is not None and mk is not NOMASK:
                mk0 = mk
                mk = lambda *i: mk0(*fwd(i))
            return Arr(self.shape, (lambda f: (lambda *i: f(*fwd(i))))(s._fn), self._dt, mk, self.fillv)
        return Arr(self.shape, self._fn, self._dt, self._mask, self.fillv)

    @property
    def mask(self):
        if not self.ismasked:
            raise AttributeError("'numpy.ndarray' object has no attribute 'mask'")
        if self.nomask:
            return NOMASK
        s = self.snap()
        return Arr(self.shape, lambda *i: SBool(zb(s._mask(*i))), 'b1')

    @mask.setter
    def mask(self, v):
        if not self.ismasked:
            raise AttributeError('mask')
        self._log()
        if self.base is not None:
            raise Unsupported('mask of a view')
        if v is NOMASK or v is False:
            self._mask = lambda *i: F
            return
        v = asarr(v)
        self._mask = lambda *i: zb(core.tobool(v.at(*bidx(v.shape, i))))

    @property
    def fill_value(self):
        return self.fillv if self.fillv is not None else 1e20

    @fill_value.setter
    def fill_value(self, v): self.fillv = v
    def set_fill_value(self, v): self.fillv = v

    def fill(self, v):
        self[tuple(slice(None) for _ in self.shape)] = v

    def filled(self, fv=None):
        if not self.ismasked:
            raise AttributeError('filled')
        s = self.snap()
        if s.nomask:
            return Arr(s.shape, s._fn, s._dt)
        fv = self.fill_value if fv is None else fv
        fv = coerce(asarr(fv).item() if getattr(fv, '__vc_arr__', False) else fv, self._dt)
        return Arr(s.shape, lambda *i: ite(s.m(*i), fv, s.at(*i)), s._dt)

    # ------------------------------------------------ indexing
    def _norm(self, t, d):
        """normalise one integer index with a bounds check (IndexError path)"""
        e = eng()
        t, dt = iterm(t), dimt(d)
        if e.branch(zor(t >= dt, t < -dt)):
            raise IndexError('index out of bounds')
        if z3.is_int_value(_simp(t)):
            return _simp(t) if _simp(t).as_long() >= 0 else _simp(t + dt)
        if e.branch(t < 0):
            return _simp(t + dt)
        return t

    def _slice(self, s, d):
        """-> (start term, new dim, step)"""
        st = 1 if s.step is None else s.step
        if isinstance(st, SInt):
            st = concrete(st)
        if st == -1 and s.start is None and s.stop is None:
            return _simp(dimt(d) - 1), d, -1
        if not isinstance(st, int) or st < 1:
            raise Unsupported('array slice step')
        dt = dimt(d)

        def nb(x, default):
            if x is None:
                return default
            x = iterm(x)
            e = eng()
            if e.branch(x < 0):
                x = x + dt
                return z3.IntVal(0) if e.branch(x < 0) else _simp(x)
            return _simp(dt) if e.branch(x > dt) else x
        a, b = nb(s.start, z3.IntVal(0)), nb(s.stop, dt)
        n = _simp(b - a)
        if st > 1:
            n = _simp((n + (st - 1)) / st)
        if not z3.is_int_value(n):
            if eng().branch(n < 0):
                n = z3.IntVal(0)
        elif n.as_long() < 0:
            n = z3.IntVal(0)
        return a, sint(n), st

    def _basic(self, key):
        """(shape, fwd, inv) of a basic index, or None"""
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = [k is Ellipsis for k in key].index(True)
            nn = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:p] + (slice(None),) * (len(self.shape) - nn) + key[p + 1:]
        real = [k for k in key if k is not None]
        if len(real) > len(self.shape):
            raise IndexError('too many indices for array')
        key = list(key) + [slice(None)] * (len(self.shape) - len(real))
        plan, shape, src = [], [], 0
        for k in key:
            if k is None:
                plan.append(('new',))
                shape.append(1)
                continue
            d = self.shape[src]
            if isinstance(k, slice):
                a, n, st = self._slice(k, d)
                whole = st == 1 and z3.is_int_value(_simp(a)) and _simp(a).as_long() == 0 and _simp(dimt(n)).eq(_simp(dimt(d)))
                plan.append(('sl', a, n, st, whole))
                shape.append(n)
            elif isinstance(k, (int, SInt)) and not isinstance(k, bool):
                plan.append(('ix', self._norm(k, d)))
            else:
                return None
            src += 1

        def fwd(idx):
            out, p = [], 0
            for x in plan:
                if x[0] == 'new':
                    p += 1
                elif x[0] == 'ix':
                    out.append(x[1])
                else:
                    out.append(_simp(x[1] + idx[p] * x[3]))
                    p += 1
            return tuple(out)

        def inv(idx):
            out, cs, p = [], [], 0
            for x in plan:
                if x[0] == 'new':
                    out.append(z3.IntVal(0))
                elif x[0] == 'ix':
                    cs.append(idx[p] == x[1])
                    p += 1
                elif x[4]:
                    out.append(idx[p])          # every element of the axis
                    p += 1
                else:
                    q = idx[p] - x[1]
                    if x[3] not in (1,):
                        if x[3] == -1:
                            q = x[1] - idx[p]
                        else:
                            cs.append(q % x[3] == 0)
                            q = q / x[3]
                    cs += [q >= 0, q < dimt(x[2])]
                    out.append(_simp(q))
                    p += 1
            return zand(*cs), tuple(out)
        return tuple(shape), fwd, inv

    def _get(self, key):
        b = self._basic(key)
        if b is not None:
            shape, fwd, inv = b
            if not shape:
                idx = fwd(())
                if self.ismasked:
                    mk = _simp(self.m(*idx))
                    if not z3.is_false(mk):
                        if eng().branch(mk):
                            return MASKED
                return self.at(*idx)
            r = Arr(shape, None, self._dt, None, self.fillv, base=(self, fwd, inv))
            sel = picked_from(self)
            if sel is not None:
                first = key[0] if isinstance(key, tuple) else key
                if isinstance(first, slice) and first == slice(None):
                    z0 = z3.IntVal(0)
                    r.selected = sel[0], sel[1], lambda *i: sel[2](*i[:sel[1]], *fwd((z0,) + i[sel[1]:])[1:])
            return r
        return self._fancy(key)

    def __getitem__(self, key):
        return self._get(key)

    def _fancy(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        key = tuple(asarr(k) if isinstance(k, (list, Arr)) else k for k in key)
        if len(key) == 1 and isinstance(key[0], Arr) and key[0]._dt == 'b1':
            return self._boolsel(key[0])
        if len(key) == 1 and isinstance(key[0], Arr):
            ix = key[0].snap()
            e = eng()
            up = self._bounds(ix, self.shape[0])
            s = self.snap()
            nk = len(ix.shape)
            d0 = dimt(self.shape[0])

            def conv(i):
                t = iterm(ix.at(*i))
                return t if up else _simp(z3.If(t < 0, t + d0, t))
            r = Arr(ix.shape + self.shape[1:], lambda *i: s.at(conv(i[:nk]), *i[nk:]), self._dt,
                    None if not s.ismasked else (NOMASK if s.nomask else lambda *i: s.m(conv(i[:nk]), *i[nk:])))
            sel = picked_from(key[0])
            if sel is not None and nk == 1 and not s.ismasked:
                def whole(*i):
                    t = iterm(sel[2](*i[:sel[1]]))
                    return s.at(t if up else _simp(z3.If(t < 0, t + d0, t)), *i[sel[1]:])
                r.selected = sel[0], sel[1], whole
            return r
        if all(isinstance(k, (Arr, int, SInt)) and not (isinstance(k, Arr) and k._dt == 'b1') for k in key) and len(key) == len(self.shape):
            arrs = [k if isinstance(k, Arr) else Arr((), lambda k=k: lift(k), 'i8') for k in key]
            sh = bshape([a.shape for a in arrs])
            ups = [self._bounds(a, d) for a, d in zip(arrs, self.shape)]
            s = self.snap()
            arrs = [a.snap() for a in arrs]

            def conv2(i):
                out = []
                for a, d, up in zip(arrs, s.shape, ups):
                    t = iterm(a.at(*bidx(a.shape, i)))
                    out.append(t if up else _simp(z3.If(t < 0, t + dimt(d), t)))
                return out
            return Arr(sh, lambda *i: s.at(*conv2(i)), self._dt, None if not s.ismasked else (NOMASK if s.nomask else lambda *i: s.m(*conv2(i))))
        if len(key) == 2 and isinstance(key[0], slice) and key[0] == slice(None) and isinstance(key[1], Arr) and key[1]._dt != 'b1' and len(self.shape) == 2:
            ix = key[1].snap()
            self._bounds(ix, self.shape[1])
            s = self.snap()
            d1 = dimt(self.shape[1])

            def conv3(i):
                t = iterm(ix.at(*i))
                return _simp(z3.If(t < 0, t + d1, t))
            return Arr((self.shape[0],) + ix.shape, lambda *i: s.at(i[0], conv3(i[1:])), self._dt)
        if len(key) > 1 and isinstance(key[0], Arr) and all(isinstance(k, (slice, int, SInt)) for k in key[1:]):
            if key[0]._dt == 'b1':
                for a, b in zip(key[0].shape, self.shape):
                    if not dimeq(a, b):
                        raise IndexError('boolean index did not match indexed array')
                return self._get((slice(None),) * len(key[0].shape) + key[1:])._boolsel(key[0])
            first = self._fancy(key[0])
            own = len(self.shape) - (len(key[0].shape) if key[0]._dt == 'b1' else 1)
            return first[(slice(None),) * (len(first.shape) - own) + key[1:]]
        raise Unsupported('fancy index')

    def _bounds(self, ix, d):
        """every index is in range: numpy raises otherwise; returns whether none is negative"""
        e = eng()
        if ix._dt == 'f8':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        if all(isinstance(x, int) for x in ix.shape) and _prod(ix.shape) <= 64:
            for i in itertools.product(*[range(x) for x in ix.shape]):
                t = iterm(ix.at(*i))
                if e.branch(zor(t >= dimt(d), t < -dimt(d))):
                    raise IndexError('index out of bounds')
            return False
        w = tuple(e.fresh(Z, 'oob') for _ in ix.shape)
        t = iterm(ix.at(*w))
        bad = zand(ix.inrange(*w), zor(t >= dimt(d), t < -dimt(d)))
        if e.known(znot(bad)):
            return e.known(zimp(ix.inrange(*w), t >= 0))
        # exists a bad index?
        if e.choose(2) == 1:
            e.assume_checked(bad)
            raise IndexError('index out of bounds')
        q = tuple(z3.Int(f'q!{k}') for k in range(len(ix.shape)))
        t = iterm(ix.at(*q))
        e.assume(z3.ForAll(list(q), zimp(ix.inrange(*q), zand(t < dimt(d), t >= -dimt(d)))))
        return False

    def _boolsel(self, mk):
        nk = len(mk.shape)
        if nk > len(self.shape):
            raise IndexError('too many indices for array')
        for a, b in zip(mk.shape, self.shape):
            if not dimeq(a, b):
                raise IndexError('boolean index did not match indexed array')
        sel = Selection.of(mk)
        s = self.snap()
        r = Arr((sel.n,) + self.shape[nk:], lambda k, *r: s.at(*sel.src(k), *r), self._dt,
                None if not s.ismasked else (NOMASK if s.nomask else lambda k, *r: s.m(*sel.src(k), *r)))
        if not s.ismasked:
            r.selected = sel, nk, s.at         # what is selected, by the place it comes from
        return r

    def _write(self, upd):
        """upd(old_fn, old_mask_fn) -> (new_fn, new_mask) on the owner, index terms of the owner"""
        self._log()
        f, m = upd(self._fn, self._mask)
        self._fn, self._mask = f, m

    def _owner_write(self, cond_idx, val, vmask):
        """write val(view idx) where cond"""
        if self.base is not None:
            b, fwd, inv = self.base

            def ci(idx):
                c, v = inv(idx)
                c2, v2 = cond_idx(v)
                return zand(c, c2), v2
            b._owner_write(ci, val, vmask)
            return
        old, om = self._fn, self._mask
        dt = self._dt
        self.selected = self.folded = None

        def nf(*i):
            c, v = cond_idx(i)
            if z3.is_false(c):
                return old(*i)
            return ite(c, coerce(val(v), dt), old(*i))
        nm = om
        if om is not None:
            if vmask is not None or om is not NOMASK:
                vm = vmask or (lambda v: F)

                def nm(*i):
                    c, v = cond_idx(i)
                    o = F if om is NOMASK else zb(om(*i))
                    return _simp(z3.If(c, vm(v), o)) if not z3.is_true(c) else vm(v)
        self._log()
        self._fn, self._mask = nf, nm

    def __setitem__(self, key, v):
        picked = None
        if v is MASKED:
            val, vm, vshape = (lambda *i: lift(0.0)), (lambda i: T), ()
        else:
            a = asarr(v).snap() if not liftable(v) else Arr((), lambda: lift(v), scode(v))
            vshape = a.shape
            val = lambda *i: a.at(*bidx(a.shape, i))
            picked = picked_from(v)
            vm = (lambda i: a.m(*bidx(a.shape, i))) if a.ismasked and not a.nomask else None
        if isinstance(key, list):
            key = asarr(key)
        if isinstance(key, Arr) and key._dt == 'b1':
            k = key.snap()
            nk = len(k.shape)
            if nk > len(self.shape):
                raise IndexError('too many indices for array')
            for x, y in zip(k.shape, self.shape):
                if not dimeq(x, y):
                    raise IndexError('boolean index did not match indexed array')
            rest = self.shape[nk:]
            if len(vshape) <= len(rest):
                for d, s in zip(vshape, rest[len(rest) - len(vshape):]):
                    if not (isinstance(d, int) and d == 1) and not dimeq(d, s):
                        raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
                self._owner_write(lambda i: (zb(k.at(*i[:nk])), i), lambda i: val(*i), None if vm is None else (lambda i: vm(i)))
                return
            if len(vshape) != len(rest) + 1:
                raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
            for d, s in zip(vshape[1:], rest):
                if not (isinstance(d, int) and d == 1) and not dimeq(d, s):
                    raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
            if isinstance(vshape[0], int) and vshape[0] == 1:
                self._owner_write(lambda i: (zb(k.at(*i[:nk])), (z3.IntVal(0),) + i[nk:]), lambda i: val(*i), None if vm is None else (lambda i: vm(i)))
                return
            sel = Selection.of(k)
            if not dimeq(vshape[0], sel.n):
                raise ValueError('cannot assign values: shape mismatch')
            if picked is not None and picked[0] is sel and picked[1] == nk and len(vshape) == len(rest) + 1:
                self._owner_write(lambda i: (zb(k.at(*i[:nk])), i), lambda i: picked[2](*i), None)
                return
            self._owner_write(lambda i: (zb(k.at(*i[:nk])), (sel.pos(i[:nk]),) + i[nk:]), lambda i: val(*i), None if vm is None else (lambda i: vm(i)))
            return
        b = self._basic(key)
        if b is None:
            if isinstance(key, (Arr, list)):
                ix = asarr(key).snap()
                if len(ix.shape) == 1 and len(self.shape) == 1:
                    return self._scatter((ix,), val, vshape, vm)
            if isinstance(key, tuple) and len(key) == len(self.shape) and all(isinstance(k, (Arr, list)) for k in key):
                ixs = tuple(asarr(k).snap() for k in key)
                if all(len(ix.shape) == 1 and ix._dt != 'b1' for ix in ixs):
                    for ix in ixs[1:]:
                        if not dimeq(ix.shape[0], ixs[0].shape[0]):
                            raise IndexError('shape mismatch: indexing arrays could not be broadcast together')
                    return self._scatter(ixs, val, vshape, vm)
                if len(ixs) == 2 and all(len(ix.shape) == 2 and ix._dt != 'b1' for ix in ixs) and not vshape and vm is None:
                    return self._rowstore(ixs, val)
            raise Unsupported('fancy store')
        shape, fwd, inv = b
        if len(vshape) > len(shape):
            raise ValueError('could not broadcast input array')
        for d, s in zip(vshape, shape[len(shape) - len(vshape):]):
            if isinstance(d, int) and d == 1:
                continue
            if not dimeq(d, s):
                raise ValueError('could not broadcast input array from shape')
        self._owner_write(lambda i: inv(i), lambda i: val(*i), (lambda i: vm(i)) if vm else None)

    def _rowstore(self, ixs, val):
        """a[rows, columns] = number with a column of row numbers 0, 1, ... and some columns of each row"""
        e = eng()
        n, k = bshape([ix.shape for ix in ixs])
        w = e.fresh(Z, 'row')
        rows, cols = ixs
        if not (isinstance(k, int) and k <= 16 and isinstance(rows.shape[1], int) and rows.shape[1] == 1 and dimeq(n, self.shape[0]) and dimeq(cols.shape[0], n)
                and e.known(zimp(zand(w >= 0, w < dimt(n)), iterm(rows.at(w, z3.IntVal(0))) == w))):
            raise Unsupported('fancy store')
        up = self._bounds(cols, self.shape[1])
        d = dimt(self.shape[1])

        def at(i, c):
            t = iterm(cols.at(i[0], z3.IntVal(c)))
            return t if up else _simp(z3.If(t < 0, t + d, t))
        self._owner_write(lambda i: (zor(*[i[1] == at(i, c) for c in range(k)]), ()), lambda *i: val(), None)

    def _scatter(self, ixs, val, vshape, vm):
        """a[ix0, ix1, ...] = v with integer index arrays: last write wins"""
        e = eng()
        for ix, d in zip(ixs, self.shape):
            self._bounds(ix, d)
        n = ixs[0].shape[0]
        if len(vshape) > 1:
            raise Unsupported('scatter of a matrix')
        if vshape and not (isinstance(vshape[0], int) and vshape[0] == 1) and not dimeq(vshape[0], n):
            raise ValueError('shape mismatch: value array could not be broadcast to indexing result')
        ds = [dimt(d) for d in self.shape]
        tg = lambda j: tuple((lambda t: _simp(z3.If(t < 0, t + d, t)))(iterm(ix.at(j))) for ix, d in zip(ixs, ds))
        if isinstance(n, int) and n <= 64:
            for j in range(n):
                jj = z3.IntVal(j)
                t = tg(jj)
                self._owner_write(lambda i, t=t, jj=jj: (zand(*[a == b for a, b in zip(i, t)]), (jj,)), lambda i: val(*i), None if vm is None else (lambda i: vm(i)))
            return
        k = len(ixs)
        last = e.fresh_fn('lastw', *([Z] * k + [Z]))       # position of the last write to a target, -1 if none
        q = z3.Int('q!q')
        ps = [z3.Int(f'p!q{x}') for x in range(k)]
        # trigger on the raw index terms: mentioning entry j says where it went
        raw = [iterm(ix.at(q)) for ix in ixs]
        body = zimp(zand(q >= 0, q < dimt(n)), last(*tg(q)) >= q)
        pats = [r for r in raw if not z3.is_const(r) and r.num_args() == 1 and r.arg(0).eq(q) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED]
        e.assume(z3.ForAll([q], body, patterns=[pats[0]]) if pats else z3.ForAll([q], body))
        lp = last(*ps)
        e.assume(z3.ForAll(ps, zor(lp == -1, zand(lp >= 0, lp < dimt(n), *[a == b for a, b in zip(tg(lp), ps)])), patterns=[lp]))
        self._owner_write(lambda i: (last(*i) >= 0, (last(*i),)), lambda i: val(*i), None if vm is None else (lambda i: vm(i)))

    # ------------------------------------------------ arithmetic
    def _bin(self, op, a, b):
        return elementwise(op, a, b)

    def __add__(self, o): return elementwise('+', self, o)
    def __radd__(self, o): return elementwise('+', o, self)
    def __sub__(self, o): return elementwise('-', self, o)
    def __rsub__(self, o): return elementwise('-', o, self)
    def __mul__(self, o): return elementwise('*', self, o)
    def __rmul__(self, o): return elementwise('*', o, self)
    def __truediv__(self, o): return elementwise('/', self, o)
    def __rtruediv__(self, o): return elementwise('/', o, self)
    def __floordiv__(self, o): return elementwise('//', self, o)
    def __mod__(self, o): return elementwise('%', self, o)
    def __pow__(self, o): return elementwise('**', self, o)
    def __rpow__(self, o): return elementwise('**', o, self)
    def __lt__(self, o): return elementwise('<', self, o)
    def __le__(self, o): return elementwise('<=', self, o)
    def __gt__(self, o): return elementwise('>', self, o)
    def __ge__(self, o): return elementwise('>=', self, o)
    def __eq__(self, o): return elementwise('==', self, o)
    def __ne__(self, o): return elementwise('!=', self, o)
    def __and__(self, o): return elementwise('and', self, o)
    __rand__ = __and__
    def __or__(self, o): return self if o is NOMASK else elementwise('or', self, o)
    __ror__ = __or__
    def __xor__(self, o): return elementwise('xor', self, o)
    def __invert__(self): return elementwise('not', self)
    def __neg__(self): return elementwise('neg', self)
    def __pos__(self): return self
    def __abs__(self): return elementwise('abs', self)
    __hash__ = None

    def _inplace(self, op, o):
        r = elementwise(op, self.snap() if self.ismasked else self.plain(), o if self.ismasked else plain_of(o))
        for a, b in zip(r.shape, self.shape):
            if not dimeq(a, b):
                raise ValueError('non-broadcastable output operand')
        if len(r.shape) != len(self.shape):
            raise ValueError('non-broadcastable output operand')
        if rank(r._dt) > rank(self._dt) and DT_KIND[r._dt] != DT_KIND[self._dt]:
            raise TypeError('Cannot cast ufunc output')
        self._owner_write(lambda i: (T, i), lambda i: r.at(*i), (lambda i: r.m(*i)) if (self.ismasked and not r.nomask) else None)
        return self

    def __iadd__(self, o): return self._inplace('+', o)
    def __isub__(self, o): return self._inplace('-', o)
    def __imul__(self, o): return self._inplace('*', o)
    def __itruediv__(self, o): return self._inplace('/', o)
    def __iand__(self, o): return self._inplace('and', o)
    def __ior__(self, o): return self._inplace('or', o)

    def __bool__(self):
        n = self.size
        if isinstance(n, int):
            if n == 1:
                return bool(core.tobool(self.item()))
            if n == 0:
                return False
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        if eng().branch(iterm(n) == 1):
            return bool(core.tobool(self.at(*[z3.IntVal(0)] * len(self.shape))))
        raise ValueError('The truth value of an array is ambiguous')

    def item(self, *a):
        if a:
            raise Unsupported('item(i)')
        if isinstance(self.size, int) and self.size == 1:
            return self.at(*[z3.IntVal(0)] * len(self.shape))
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    __vc_lift__ = property(lambda self: (lambda: lift(self.item())) if not self.shape else (_ for _ in ()).throw(AttributeError('__vc_lift__')))

    # ------------------------------------------------ methods
    def copy(self, order=None):
        s = self.snap()
        return Arr(s.shape, s._fn, s._dt, s._mask, s.fillv)

    def astype(self, d, copy=True):
        c = dtcode(d)
        s = self.snap()
        if DT_KIND[c] == DT_KIND[s._dt]:
            return Arr(s.shape, s._fn, c, s._mask, s.fillv)
        return Arr(s.shape, lambda *i: coerce(s.at(*i), c), c, s._mask, s.fillv)

    def view(self, *a): return self
    def tolist(self):
        r = self.rows()
        if isinstance(r, list):
            return VList([x.tolist() if isinstance(x, Arr) else x for x in r])
        return r

    def ravel(self, order=None): return self.reshape(-1)
    def flatten(self, order=None): return self.reshape(-1).copy()
    @property
    def flat(self): return self.reshape(-1)

    def reshape(self, *shape, order=None):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        if len(shape) == 1 and getattr(shape[0], '__vc_arr__', False):
            raise Unsupported('reshape to array shape')
        return reshape(self, shape)

    @property
    def T(self): return self.transpose()

    def transpose(self, *a):
        if a:
            ax = tuple(a[0]) if len(a) == 1 and isinstance(a[0], (tuple, list)) else tuple(a)
            if not all(isinstance(x, int) for x in ax) or sorted(ax) != list(range(len(self.shape))):
                raise Unsupported('transpose axes')
            return Arr(tuple(self.shape[x] for x in ax), None, self._dt, None, self.fillv,
                       base=(self, lambda i: tuple(i[ax.index(x)] for x in range(len(ax))), lambda i: (T, tuple(i[x] for x in ax))))
        if len(self.shape) < 2:
            return self
        return Arr(self.shape[::-1], None, self._dt, None, self.fillv, base=(self, lambda i: tuple(reversed(i)), lambda i: (T, tuple(reversed(i)))))

    def _red(self, what, axis=None, keepdims=False):
        return reduce_(what, self, axis)

    def min(self, axis=None, **k): return reduce_('min', self, axis)
    def max(self, axis=None, **k): return reduce_('max', self, axis)
    def sum(self, axis=None, **k): return reduce_('sum', self, axis)
    def any(self, axis=None, **k): return reduce_('any', self, axis)
    def all(self, axis=None, **k): return reduce_('all', self, axis)
    def mean(self, axis=None): 
        n = self.size if axis is None else self.shape[axis]
        return reduce_('sum', self, axis) / n
    def repeat(self, k, axis=None):
        if axis is not None or not isinstance(k, int) or k < 1:
            raise Unsupported('repeat')
        s = self.snap()
        fold = Arr(s.shape + (k,), lambda *i: s.at(*i[:-1]), s._dt)
        if _lead(fold.shape):
            r = fold.reshape(-1).snap()
        else:
            n = 1
            for d in fold.shape:
                n = n * d

            def fn(*i):
                raise Unsupported('element of a repeated array')
            r = Arr((n,), fn, s._dt)
        r.folded = fold
        return r

    @property
    def strides(self):
        """distances between neighbours, in elements (a contiguous array)"""
        a = self
        while a.base is not None:
            if len(a.shape) != len(a.base[0].shape) or not all(_simp(dimt(x)).eq(_simp(dimt(y))) for x, y in zip(a.shape, a.base[0].shape)):
                raise Unsupported('strides of a view')
            a = a.base[0]
        if not _lead(self.shape):
            raise Unsupported('strides')
        return tuple(_prod(self.shape[k + 1:]) for k in range(len(self.shape)))

    def squeeze(self): 
        if any(isinstance(d, int) and d == 1 for d in self.shape):
            raise Unsupported('squeeze')
        return self

    def contains(self, x):
        return (self == x).any()

    def fresh_like(self, name):
        return sym_array(name, self.shape, self._dt, masked=self.ismasked and not self.nomask) if not (self.ismasked and self.nomask) \
            else sym_array(name, self.shape, self._dt, masked=True)

    def set_from(self, o):
        self._fn, self._mask, self.base = o._fn, o._mask, None

    def __repr__(self):
        return f'Arr{self.shape}<{self._dt}{",masked" if self.ismasked else ""}>'

    def __float__(self): raise Unsupported('native float() of a symbolic array')
    def __int__(self): raise Unsupported('native int() of a symbolic array')


def _prod(s):
    r = 1
    for x in s:
        r *= x
    return r


class _Masked:
    """numpy.ma.masked"""
    __vc_sym__ = True
    def __repr__(self): return 'masked'
    def __bool__(self): return False
    shape = ()
    mask = True


MASKED = _Masked()


def picked_from(a):
    """what an array was selected from (None when it or what it is a view of was written since)"""
    sel = getattr(a, 'selected', None)
    b = getattr(a, 'base', None)
    while sel is not None and b is not None:
        if getattr(b[0], 'selected', None) is None:
            return None
        b = b[0].base
    return sel


class Selection:
    """positions selected by a boolean array, in C order"""

    @staticmethod
    def of(mk):
        e = eng()
        cache = e.state.setdefault('selections', [])
        s = mk.snap()
        w = tuple(e.fresh(Z, 'selx') for _ in s.shape)
        tm = _simp(zb(s.at(*w)))
        for (w0, t0, sel) in cache:
            if len(w0) == len(w):
                t1 = _simp(z3.substitute(t0, *[(a, b) for a, b in zip(w0, w)]))
                if t1.eq(tm) and all(_simp(dimt(a)).eq(_simp(dimt(b))) for a, b in zip(sel.shape, s.shape)):
                    return sel
        for (w0, t0, sel) in cache:
            if len(w0) == len(w) and all(_simp(dimt(a)).eq(_simp(dimt(b))) or e.known(dimt(a) == dimt(b)) for a, b in zip(sel.shape, s.shape)):
                if e.known(zimp(s.inrange(*w0), t0 == _simp(zb(s.at(*w0))))):
                    return sel
        sel = Selection(s)
        cache.append((w, tm, sel))
        return sel

    def __init__(self, s):
        e = eng()
        self.shape = s.shape
        self.mk = s
        k = len(s.shape)
        n = e.fresh(Z, 'nsel')
        self.n = SInt(n)
        self.srcf = [e.fresh_fn('selsrc', Z, Z) for _ in range(k)]
        self.posf = e.fresh_fn('selpos', *([Z] * k + [Z]))
        e.assume(n >= 0)
        q = z3.Int('q!s')
        src = tuple(f(q) for f in self.srcf)
        e.assume(z3.ForAll([q], zimp(zand(q >= 0, q < n), zand(s.inrange(*src), zb(s.at(*src)), self.posf(*src) == q)), patterns=[src[0]]))
        v = tuple(z3.Int(f'v!s{i}') for i in range(k))
        p = self.posf(*v)
        e.assume(z3.ForAll(list(v), zimp(zand(s.inrange(*v), zb(s.at(*v))), zand(p >= 0, p < n, *[f(p) == x for f, x in zip(self.srcf, v)])), patterns=[p]))
        if k == 1:
            a, b = z3.Ints('a!s b!s')
            e.assume(z3.ForAll([a, b], zimp(zand(a >= 0, a < b, b < n), self.srcf[0](a) < self.srcf[0](b)), patterns=[z3.MultiPattern(self.srcf[0](a), self.srcf[0](b))]))

    def src(self, k):
        return tuple(f(iterm(k)) for f in self.srcf)

    def pos(self, idx):
        return self.posf(*idx)


# ------------------------------------------------------------------ construction
def asarr(x, dtype=None):
    if isinstance(x, Arr):
        return x if dtype is None or dtcode(dtype) == x._dt else x.astype(dtype)
    if x is NOMASK:
        return Arr((), lambda: SBool(F), 'b1')
    if liftable(x):
        c = dtcode(dtype) if dtype is not None else scode(x)
        v = coerce(x, c)
        return Arr((), lambda: v, c)
    if isinstance(x, VList) and x.pre is not None:
        x = x.seq()
    if isinstance(x, ISeq):
        if x.guard is not None:
            raise Unsupported('array of a filtered sequence')
        e = eng()
        j = e.fresh(Z, 'el')
        el = x.elem(j)
        if liftable(el):
            c = dtcode(dtype) if dtype is not None else scode(el)
            return Arr((sint(x.n),), lambda i: coerce(x.elem(i), c), c)
        if isinstance(el, Arr):
            c = dtcode(dtype) if dtype is not None else el._dt
            return Arr((sint(x.n),) + el.shape, lambda i, *r: coerce(x.elem(i).at(*r), c), c)
        raise Unsupported('array of objects')
    if isinstance(x, range):
        x = list(x)
    if isinstance(x, SRange):
        if z3.is_int_value(x.st) and x.st.as_long() == 1:
            return Arr((x.length(),), lambda i: SInt(x.lo + i), 'i8')
        raise Unsupported('array of range')
    if isinstance(x, (list, tuple)):
        xs = list(x)
        if not xs:
            return Arr((0,), lambda i: lift(0.0), dtcode(dtype))
        if all(liftable(v) and not isinstance(v, Arr) for v in xs):
            c = dtcode(dtype) if dtype is not None else max((scode(v) for v in xs), key=rank)
            vals = [coerce(v, c) for v in xs]

            def fn(i):
                i = _simp(i)
                if z3.is_int_value(i) and 0 <= i.as_long() < len(vals):
                    return vals[i.as_long()]
                r = vals[-1]
                for k in range(len(vals) - 2, -1, -1):
                    r = ite(i == k, vals[k], r)
                return r
            return Arr((len(vals),), fn, c)
        rows = [asarr(v, dtype).snap() for v in xs]     # numpy.array drops the masks
        sh = rows[0].shape
        for r in rows[1:]:
            if len(r.shape) != len(sh) or not all(dimeq(a, b) for a, b in zip(sh, r.shape)):
                raise ValueError('inhomogeneous shape')
        c = dtcode(dtype) if dtype is not None else max((r._dt for r in rows), key=rank)

        def fn(i, *rest):
            i = _simp(i)
            if z3.is_int_value(i) and 0 <= i.as_long() < len(rows):
                return coerce(rows[i.as_long()].at(*rest), c)
            r = coerce(rows[-1].at(*rest), c)
            for k in range(len(rows) - 2, -1, -1):
                r = ite(i == k, coerce(rows[k].at(*rest), c), r)
            return r
        return Arr((len(rows),) + sh, fn, c)
    raise Unsupported(f'array from {type(x).__name__}')


def plain_of(x):
    return x.plain() if isinstance(x, Arr) else x


def sym_array(name, shape, dtype='f8', masked=False, nan=False):
    """unconstrained array"""
    e = eng()
    k = len(shape)
    f = e.fresh_fn(name, *([Z] * k + [{'f': R, 'i': Z, 'b': B}[DT_KIND[dtype]]])) if k else None
    fnan = e.fresh_fn(name + '.nan', *([Z] * k + [B])) if nan and k else None
    if k == 0:
        raise Unsupported('0-d symbolic array')
    kind = DT_KIND[dtype]
    if kind == 'f':
        fn = lambda *i: SReal(f(*i), fnan(*i) if fnan is not None else F, core.I0, True)
    elif kind == 'i':
        fn = lambda *i: SInt(f(*i), True)
    else:
        fn = lambda *i: SBool(f(*i))
    mask = None
    if masked == 'nomask':
        mask = NOMASK
    elif masked:
        fm = e.fresh_fn(name + '.mask', *([Z] * k + [B]))
        mask = lambda *i: fm(*i)
    return Arr(shape, fn, dtype, mask)


def full(shape, v, dtype=None):
    if not isinstance(shape, (tuple, list)):
        shape = (shape,)
    for d in shape:
        if isinstance(d, (SReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isinstance(d, SInt) and not eng().known(d.t >= 0) and eng().branch(d.t < 0):
            raise ValueError('negative dimensions are not allowed')
    c = dtcode(dtype) if dtype is not None else scode(v)
    v = coerce(v, c)
    return Arr(tuple(_cd(d) for d in shape), lambda *i: v, c)


def _cd(d):
    c = concrete(d) if isinstance(d, Sym) else d
    return c if isinstance(c, int) else SInt(iterm(d))


BOOLOPS = ('<', '<=', '>', '>=', '==', '!=', 'and', 'or', 'not', 'xor', 'isnan', 'isfinite', 'isinf')
FLOATOPS = ('/', 'sqrt', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'arctan2', 'exp', 'log', 'radians', 'degrees', 'floor', 'ceil')


def rescode(op, codes):
    if op in BOOLOPS:
        return 'b1'
    c = max(codes, key=rank)
    if op == 'where':
        return max(codes[1:], key=rank)
    if op in FLOATOPS and DT_KIND[c] != 'f':
        return 'f8'
    if c == 'b1' and op in ('+', '*', '-', 'neg', 'abs'):
        return 'i8'
    return c


def elementwise(op, *args, keepmask=True):
    if any(a is MASKED for a in args):
        return MASKED
    if not any(isinstance(a, Arr) for a in args):
        r = ew(op, *args)
        if isinstance(r, (SInt, SReal)):
            r.np = True
        return r
    if op in ('==', '!=') and any(a is None or isinstance(a, str) for a in args):
        return op == '!='
    ops = []
    for a in args:
        if isinstance(a, Arr):
            ops.append(a.snap())
        elif liftable(a):
            ops.append(Arr((), (lambda v: (lambda: v))(lift(a)), scode(a)))
        elif isinstance(a, (list, tuple, ISeq)):
            ops.append(asarr(a))
        elif a is NOMASK:
            ops.append(Arr((), lambda: SBool(F), 'b1'))
        else:
            raise Unsupported(f'array operand {type(a).__name__}')
    sh = bshape([a.shape for a in ops])
    # python scalars do not raise the precision class of a float array
    code = rescode(op, [a._dt for a in ops])
    if code == 'f8' and any(a._dt == 'f4' and a.shape for a in ops) and not any(a._dt == 'f8' and a.shape for a in ops):
        code = 'f4'
    if op in ('-', 'neg') and code == 'b1':
        raise TypeError('numpy boolean subtract')

    memo = {}

    def fn(*i):
        k = tuple(x.get_id() for x in i)
        if k in memo:
            return memo[k][1]
        r = ew(op, *[a.at(*bidx(a.shape, i)) for a in ops])
        r = r if isinstance(r, SBool) else coerce(r, code)
        if eng() is None or eng().nested is None:
            memo[k] = i, r
        return r
    mask = None
    if keepmask and any(a.ismasked for a in ops):
        ms = [a for a in ops if a.ismasked and not a.nomask]
        if not ms:
            mask = NOMASK
        else:
            mask = lambda *i: zor(*[a.m(*bidx(a.shape, i)) for a in ms])
        if op in ('/', '//', '%'):
            # domain: masked where the divisor is (nearly) zero
            d = ops[1]
            m0 = mask

            def mask(*i):
                dv = core.toreal(d.at(*bidx(d.shape, i)))
                return zor(F if m0 is NOMASK else m0(*i), zand(znot(dv.nan), dv.inf == 0, dv.t == 0))
        # data of masked cells: numpy.ma keeps the first operand's data
        if mask is not NOMASK and op in ('+', '-', '*', '/', '//', '%'):
            f0, mk = fn, mask
            fn = lambda *i: ite(mk(*i), coerce(ops[0].at(*bidx(ops[0].shape, i)), code), f0(*i))
    fill = next((a.fillv for a in ops if a.fillv is not None), None)
    out = Arr(sh, fn, code, mask, fill)
    big = [a for a in args if isinstance(a, Arr) and a.shape]
    pk = [picked_from(a) for a in big]
    if pk and mask is None and all(x is not None and x[0] is pk[0][0] and x[1] == pk[0][1] for x in pk) and all(len(a.shape) == len(sh) for a in big):
        at = [(lambda *i, a=a: getattr(a, 'selected')[2](*i)) if isinstance(a, Arr) and a.shape else (lambda *i, o=o: o.at()) for a, o in zip(args, ops)]

        def whole(*i):
            r = ew(op, *[f(*i) for f in at])
            return r if isinstance(r, SBool) else coerce(r, code)
        out.selected = pk[0][0], pk[0][1], whole
    return out


def reshape(a, shape):
    e = eng()
    shape = [(_cd(d) if isinstance(d, (Sym, int)) else d) for d in shape]
    if len(shape) == len(a.shape) and all(not (isinstance(d, int) and d == -1) for d in shape) and all(_simp(dimt(x)).eq(_simp(dimt(y))) for x, y in zip(shape, a.shape)):
        return Arr(a.shape, None, a._dt, None, a.fillv, base=(a, lambda i: i, lambda i: (T, i)))
    neg = [k for k, d in enumerate(shape) if isinstance(d, int) and d == -1]
    if shape == [-1] and len(a.shape) == 1:
        return Arr(a.shape, None, a._dt, None, a.fillv, base=(a, lambda i: i, lambda i: (T, i)))
    if neg:
        rest = 1
        for k, d in enumerate(shape):
            if k not in neg:
                rest = rest * d
        tot = a.size
        if isinstance(rest, int) and rest == 1:
            shape[neg[0]] = tot
        elif isinstance(rest, int) and isinstance(tot, int):
            if tot % rest:
                raise ValueError('cannot reshape array')
            shape[neg[0]] = tot // rest
        elif getattr(a, 'folded', None) is not None and len(shape) == len(a.folded.shape) and all(d == -1 or (isinstance(d, int) and isinstance(x, int) and d == x) for d, x in zip(shape, a.folded.shape)):
            return a.folded
        elif isinstance(rest, int) and len(neg) == 1:
            q, r = divmod_const(dimt(tot), rest)
            if not z3.is_int_value(r):
                raise Unsupported('reshape -1')
            if r.as_long():
                raise ValueError('cannot reshape array')
            shape[neg[0]] = SInt(q)
        elif len(neg) == 1 and _ratio(dimt(tot), dimt(rest)) is not None:
            shape[neg[0]] = _ratio(dimt(tot), dimt(rest))
        else:
            raise Unsupported('reshape -1')
    else:
        n1 = 1
        for d in shape:
            n1 = n1 * d
        if not dimeq(n1, a.size):
            raise ValueError('cannot reshape array')
    src, dst = a.shape, tuple(shape)
    src2 = tuple(d for d in src if not (isinstance(d, int) and d == 1))
    if not src:
        return Arr(dst, lambda *i: a.at(), a._dt)
    if len(src) == 2 and len(dst) == 1 and not isinstance(src[1], int):
        w = dimt(src[1])
        rc = rowcol(w)
        fwd = lambda i: rc(i[0])
        inv = lambda i: (T, (lin(i[0], i[1], w),))
    elif len(src) == 1 and len(dst) == 2 and not isinstance(dst[1], int):
        w = dimt(dst[1])
        rc = rowcol(w)
        fwd = lambda i: (lin(i[0], i[1], w),)
        inv = lambda i: (T, rc(i[0]))
    elif all(isinstance(d, int) for d in src + dst):
        fwd = lambda i: _unlin(_lin(i, dst), src)
        inv = lambda i: (T, _unlin(_lin(i, src), dst))
    elif len(dst) == 1 and len(src) == 1:
        fwd = lambda i: i
        inv = lambda i: (T, i)
    elif _lead(src) and _lead(dst):
        fwd = lambda i: _unlin_lead(_lin(i, dst), src)
        inv = lambda i: (T, _unlin_lead(_lin(i, src), dst))
    elif len(dst) == len(src) + 1 and isinstance(dst[-1], int) and dst[-1] == 1:
        fwd = lambda i: i[:-1]
        inv = lambda i: (T, i + (z3.IntVal(0),))
    elif len(dst) == len(src) + 1 and isinstance(dst[0], int) and dst[0] == 1:
        fwd = lambda i: i[1:]
        inv = lambda i: (T, (z3.IntVal(0),) + i)
    else:
        raise Unsupported('reshape')
    return Arr(dst, None, a._dt, None, a.fillv, base=(a, fwd, inv))


def _ratio(a, b):
    """a / b when it is visibly a whole number (b not zero)"""
    def split(t):
        t = _simp(t)
        if z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.num_args() == 2:
            return t.arg(0).as_long(), t.arg(1)
        return 1, t
    (p, x), (q, y) = split(a), split(b)
    if x.eq(y) and q and p % q == 0 and eng().known(y > 0):
        return p // q
    return None


def _lin(idx, shape):
    r = idx[0] if idx else z3.IntVal(0)
    for i, d in zip(idx[1:], shape[1:]):
        r = r * d + i
    return _simp(r)


def _unlin(t, shape):
    out = []
    for d in reversed(shape):
        out.append(_simp(t % d))
        t = _simp(t / d)
    return tuple(reversed(out))


def lin(r, c, w):
    """r*w + c as an uninterpreted bijection (C order)"""
    if z3.is_int_value(_simp(w)):
        return _simp(r * w + c)
    e = eng()
    f = core.uf('lin', Z, Z, Z, Z)
    t = f(r, c, w)
    e.keep.append(t)
    e.axiom(('lin', _simp(r).get_id(), _simp(c).get_id(), _simp(w).get_id()),
            zand(zimp(zand(r >= 0, c >= 0, c < w), zand(t >= 0, core.uf('linrow', Z, Z, Z)(t, w) == r, core.uf('lincol', Z, Z, Z)(t, w) == c)),
                 zimp(r == 0, t == c)) if z3.is_const(r) or z3.is_int_value(r) or True else T)
    return t


def divmod_const(t, w):
    """(t div w, t mod w) for a positive constant w; exact when t is visibly w*q + c"""
    t = _simp(t)
    q, c = [], 0
    for x in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(x):
            c += x.as_long()
        elif z3.is_mul(x) and z3.is_int_value(x.arg(0)) and x.arg(0).as_long() % w == 0:
            q.append((x.arg(0).as_long() // w) * (x.arg(1) if x.num_args() == 2 else z3.Product(*x.children()[1:])))
        elif w == 1:
            q.append(x)
        else:
            return _simp(t / w), _simp(t % w)
    return _simp(z3.Sum(*q, z3.IntVal(c // w))) if q else z3.IntVal(c // w), z3.IntVal(c % w)


def _lead(shape):
    """only the first dimension is symbolic"""
    return all(isinstance(d, int) for d in shape[1:])


def _unlin_lead(t, shape):
    out = []
    for d in reversed(shape[1:]):
        t, r = divmod_const(t, d)
        out.append(r)
    return (t,) + tuple(reversed(out))


def rowcol(w):
    def rc(t):
        if z3.is_int_value(_simp(w)):
            return divmod_const(t, _simp(w).as_long())
        if z3.is_app(t) and t.decl().name() == 'lin' and t.arg(2).eq(_simp(w)):
            return (t.arg(0), t.arg(1))
        r, c = core.uf('linrow', Z, Z, Z)(t, w), core.uf('lincol', Z, Z, Z)(t, w)
        e = eng()
        e.keep += [r, c]
        e.axiom(('rc', _simp(t).get_id(), _simp(w).get_id()), zimp(t >= 0, zand(r >= 0, c >= 0, c < w, core.uf('lin', Z, Z, Z, Z)(r, c, w) == t)))
        return (r, c)
    return rc


def reduce_(what, a, axis=None):
    e = eng()
    s = a.snap()
    if axis is not None:
        if isinstance(axis, int) and axis < 0:
            axis += len(s.shape)
        n = s.shape[axis]
        if not isinstance(n, int):
            raise Unsupported('reduction over a symbolic axis')
        sh = s.shape[:axis] + s.shape[axis + 1:]

        memo = {}

        def fn(*i):
            k = tuple(x.get_id() for x in i)
            if k not in memo:
                r = fold(what, [s.at(*(i[:axis] + (z3.IntVal(k),) + i[axis:])) for k in range(n)])
                if e.nested is not None:
                    return r
                memo[k] = i, r
            return memo[k][1]
        c = 'b1' if what in ('any', 'all') else ('i8' if s._dt == 'b1' else s._dt)
        if s.ismasked and not s.nomask:
            raise Unsupported('masked reduction over an axis')
        if not sh:
            return fn()
        return Arr(sh, fn, c)
    if all(isinstance(d, int) for d in s.shape) and _prod(s.shape) <= MAXEXP and s.nomask:
        vals = [s.at(*i) for i in itertools.product(*[range(d) for d in s.shape])]
        if not vals and what in ('min', 'max'):
            raise ValueError('zero-size array to reduction operation')
        r = fold(what, vals)
        if isinstance(r, (SInt, SReal)):
            r = type(r)(*( [r.t, True] if isinstance(r, SInt) else [r.t, r.nan, r.inf, True]))
        return r
    q = tuple(z3.Int(f'r!{k}') for k in range(len(s.shape)))
    w = tuple(e.fresh(Z, 'redw') for _ in s.shape)
    inq = zand(s.inrange(*q), znot(s.m(*q)))
    inw = zand(s.inrange(*w), znot(s.m(*w)))
    if what in ('any', 'all'):
        v = lambda i: zb(core.tobool(s.at(*i))) if what == 'any' else znot(core.tobool(s.at(*i)))
        b = e.fresh(B, what)
        e.assume(zimp(b, zand(inw, v(w))))
        e.assume(zimp(znot(b), z3.ForAll(list(q), zimp(inq, znot(v(q))))))
        return SBool(b if what == 'any' else znot(b))
    if what in ('min', 'max'):
        x = s.at(*w)
        e.assume(inw)       # non-empty, at least one unmasked element
        r = e.fresh(R if isinstance(x, SReal) else Z, what)
        y = s.at(*q)
        if isinstance(x, SReal) and not (x.finite_surely):
            raise Unsupported('min/max with special values')
        e.assume(r == x.t)
        e.assume(z3.ForAll(list(q), zimp(inq, (r <= y.t) if what == 'min' else (r >= y.t))))
        e.state.setdefault('redw', {})[r.get_id()] = w
        e.state.setdefault('redv', {})[r.get_id()] = r
        e.keep.append(r)
        return SReal(r, F, core.I0, True) if isinstance(x, SReal) else SInt(r, True)
    raise Unsupported(f'{what} of a symbolic array')


def fold(what, vals):
    if what in ('any', 'all'):
        b = [zb(core.tobool(v)) for v in vals]
        return SBool(zor(*b) if what == 'any' else zand(*b))
    if what == 'sum':
        r = lift(0)
        for v in vals:
            r = ew('+', r, v)
        return r
    r = vals[0]
    for v in vals[1:]:
        r = ew(what, r, v)
    return r
