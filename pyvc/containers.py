"""Lists, dicts, symbolic collections and loops."""
import z3
from . import core
from .core import (SInt, SReal, SBool, Sym, lift, zb, zand, zor, znot, zimp, Unsupported, PathEnd, Restart, Z, B, R, T, F,
                   eng, liftable, concrete, _simp, same)


def issym(x):
    return isinstance(x, Sym) or getattr(x, '__vc_sym__', False)


def iterm(x):
    """z3 Int term of an index-like value"""
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, SBool):
        return core.toint(x).t
    if isinstance(x, z3.ArithRef):
        return x
    if isinstance(x, SReal) and z3.is_app_of(x.t, z3.Z3_OP_TO_REAL):
        return x.t.arg(0)
    w = getattr(x, '__vc_lift__', None)
    if w:
        return iterm(w())
    if hasattr(x, '__index__'):
        return z3.IntVal(x.__index__())
    raise Unsupported(f'not an int: {x!r}')


def sint(t):
    t = _simp(t) if isinstance(t, z3.ExprRef) else t
    if isinstance(t, int):
        return t
    if z3.is_int_value(t):
        return t.as_long()
    return SInt(t)


class Born:
    def _tick(self):
        e = eng()
        e.clock += 1
        self._born = e.clock

    def _log(self):
        eng().mutlog.append(self)


class Undef:
    """value of a variable that the loop contract does not describe"""
    __vc_sym__ = True

    def __init__(self, name): object.__setattr__(self, '_n', name)

    def _u(self, *a, **k):
        raise Unsupported(f'variable {self._n} used across loop iterations without invariant')
    __getattr__ = __bool__ = __iter__ = __len__ = __getitem__ = __setitem__ = __call__ = __add__ = __radd__ = __sub__ = __rsub__ = _u
    __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __hash__ = _u
    __contains__ = __and__ = __or__ = __invert__ = __neg__ = __format__ = __str__ = __repr__ = _u
    __iadd__ = __isub__ = _u


# ------------------------------------------------------------------ ranges
def cong(d, st):
    """d is a multiple of st (uninterpreted, with instances added where needed)"""
    d = _simp(d)
    f = core.uf('cong', Z, Z, B)
    e = eng()
    st = _simp(st)
    if z3.is_int_value(st) and st.as_long() == 1:
        return T
    if z3.is_int_value(st):
        return _simp(d % st == 0)
    r = f(d, st)
    e.keep.append(r)
    e.axiom(('cong0', st.get_id()), f(z3.IntVal(0), st))
    return r


def cong_step(d, st):
    """instance: d multiple <=> d+st multiple <=> d-st multiple"""
    e = eng()
    d = _simp(d)
    if z3.is_int_value(_simp(st)):
        return
    for d2 in (_simp(d + st), _simp(d - st)):
        e.axiom(('congs', d.get_id(), d2.get_id(), st.get_id()), cong(d, st) == cong(d2, st))


def cong_gap(a, b, st):
    """instance of the lemma: multiples a < b of st > 0 differ by at least st"""
    e = eng()
    a, b = _simp(a), _simp(b)
    e.axiom(('congg', a.get_id(), b.get_id(), st.get_id()), zimp(zand(st > 0, cong(a, st), cong(b, st), a < b), a + st <= b))


class SRange:
    __vc_sym__ = True

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st

    def member(self, t):
        return zand(t >= self.lo, t < self.hi, cong(t - self.lo, self.st))

    def contains(self, x):
        return SBool(self.member(iterm(x)))

    def length(self):
        if z3.is_int_value(self.st):
            s = self.st.as_long()
            n = (self.hi - self.lo + (s - 1)) / s
            return sint(z3.If(self.hi > self.lo, n, z3.IntVal(0)))
        raise Unsupported('len of a range with symbolic step')

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic range')


def mkrange(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    vs = [concrete(x) if isinstance(x, Sym) else x for x in (lo, hi, st)]
    if all(isinstance(v, int) for v in vs):
        return range(*vs)
    for x in (lo, hi, st):
        if isinstance(x, (SReal, float)):
            raise TypeError("'float' object cannot be interpreted as an integer")
    lo, hi, st = iterm(lo), iterm(hi), iterm(st)
    e = eng()
    if e.branch(st == 0):
        raise ValueError('range() arg 3 must not be zero')
    if not e.branch(st > 0):
        raise Unsupported('descending symbolic range')
    # short ranges: same start, length decided by entailed bounds
    d = _simp(hi - lo)
    if z3.is_int_value(d) and z3.is_int_value(_simp(st)):
        return ConcRange(lo, d.as_long(), _simp(st).as_long())
    return SRange(_simp(lo), _simp(hi), _simp(st))


def ConcRange(lo, n, st):
    return [sint(lo + k) for k in range(0, n, st)]


# ------------------------------------------------------------------ indexed symbolic sequences
class ISeq(Born):
    """immutable sequence of symbolic length: elem(j) for 0 <= j < n (optionally guarded by g(j))"""
    __vc_sym__ = True
    abs = None      # (lo, hi, elem, guard) over absolute positions, when built by a loop

    def __init__(self, n, elem, guard=None):
        self.n, self.elem, self.guard = n, elem, guard
        self._tick()

    def length(self):
        if self.guard is not None:
            raise Unsupported('len of a filtered sequence')
        return sint(self.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of a symbolic sequence')
        if self.guard is not None:
            raise Unsupported('index into a filtered sequence')
        t = iterm(i)
        e = eng()
        if e.branch(zor(t >= self.n, t < -self.n)):
            raise IndexError('list index out of range')
        if e.branch(t < 0):
            t = t + self.n
        return self.elem(_simp(t))

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic sequence')

    def contains(self, x):
        raise Unsupported('membership in a symbolic sequence')


class NoBranch:
    def __init__(self, hyp=None):
        self.hyp = T if hyp is None else hyp

    def __enter__(self):
        self.e = eng()
        self.old = self.e.branch

        def nb(c):
            c = _simp(zb(c))
            if z3.is_true(c): return True
            if z3.is_false(c): return False
            if self.e.known(zimp(self.hyp, c)): return True
            if self.e.known(zimp(self.hyp, znot(c))): return False
            raise Unsupported('branch on a generic element of a symbolic collection')
        self.e.branch = nb

    def __exit__(self, *a):
        self.e.branch = self.old
        return False


class SymColl(Born):
    """collection enumerating a symbolic set of int keys: {elem(e) | guard(e)}; order: None or 'sorted'"""
    __vc_sym__ = True

    def __init__(self, guard, elem, order=None, n=None):
        self.guard, self.elem, self.order, self.n = guard, elem, order, n
        self._tick()

    def map(self, f, cond=None):
        elem, g = self.elem, self.guard

        def el(e):
            with NoBranch():
                return f(elem(e))
        gd = g
        if cond is not None:
            def gd(e):
                with NoBranch():
                    c = cond(elem(e))
                return zand(g(e), core.tobool(c))
        return SymColl(gd, el, self.order, None if cond is not None else self.n)

    def length(self):
        if self.n is None:
            raise Unsupported('len of a filtered collection')
        return sint(self.n)

    def _sample(self):
        e = eng()
        k = e.fresh(Z, 'some')
        e.assume(self.guard(k))
        return self.elem(k)

    def __getitem__(self, i):
        if self.order is None:
            if isinstance(i, int) and i == 0:
                # the first element in insertion order: some element
                if 'first' not in self.__dict__:
                    self.first = self._sample()
                return self.first
            raise Unsupported('position in an unordered collection')
        return SortedKeys.of(self)[i]

    def __iter__(self):
        raise Unsupported('native iteration over a symbolic collection')

    def contains(self, x):
        # membership of an int among int elements
        e = eng()
        k = e.fresh(Z, 'el')
        el = self.elem(k)
        if isinstance(el, SInt) and el.t.eq(k):
            return SBool(self.guard(iterm(x)))
        raise Unsupported('membership in a symbolic collection')

    def insert(self, *a):
        raise Unsupported('insert into a symbolic key list')
    append = insert


class SortedKeys(Born):
    """strictly increasing sequence of the integer keys of a symbolic set"""
    __vc_sym__ = True

    def __init__(self, has):
        e = eng()
        self.has = has
        self._tick()
        self.n = e.fresh(Z, 'nkeys')
        self.K = e.fresh_fn('key', Z, Z)
        self.ix = e.fresh_fn('keyix', Z, Z)
        i, j, k = z3.Ints('i!q j!q k!q')
        K, ix, n = self.K, self.ix, self.n
        e.assume(n >= 0)
        e.assume(z3.ForAll([i, j], zimp(zand(0 <= i, i < j, j < n), K(i) < K(j)), patterns=[z3.MultiPattern(K(i), K(j))]))
        e.assume(z3.ForAll([i], zimp(zand(0 <= i, i < n), zand(has(K(i)), ix(K(i)) == i)), patterns=[K(i)]))
        self.inst_has = lambda k: zimp(has(k), zand(0 <= ix(k), ix(k) < n, K(ix(k)) == k))
        e.state.setdefault('sortedkeys', []).append(self)

    def inst(self, k):
        """instance of: every member has a position"""
        e = eng()
        e.axiom(('skinst', id(self), _simp(k).get_id()), self.inst_has(k))

    @staticmethod
    def of(coll):
        e = eng()
        cache = e.state.setdefault('skcache', {})
        if id(coll) in cache:
            return cache[id(coll)][1]
        k = e.fresh(Z, 'el')
        el = coll.elem(k)
        if not (isinstance(el, SInt) and el.t.eq(k)):
            raise Unsupported('order of non-integer elements')
        sk = SortedKeys(coll.guard)
        cache[id(coll)] = (coll, sk)
        return sk

    def length(self):
        return sint(self.n)

    def at(self, t):
        e = eng()
        v = self.K(t)
        e.keep.append(v)
        acc = e.state.setdefault('keysused', [])
        if not any(v.eq(x) for x in acc):
            acc.append(v)
        return SInt(v)

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported('slice of symbolic keys')
        t = iterm(i)
        e = eng()
        if e.branch(zor(t >= self.n, t < -self.n)):
            raise IndexError('list index out of range')
        if e.branch(t < 0):
            t = t + self.n
        return self.at(_simp(t))

    def contains(self, x):
        return SBool(self.has(iterm(x)))

    def insert(self, *a):
        raise Unsupported('insert into symbolic keys')
    append = insert

    def __iter__(self):
        raise Unsupported('native iteration over symbolic keys')

    def bisect(self, x, side):
        e = eng()
        x = iterm(x)
        p = e.fresh(Z, 'bis')
        K, n = self.K, self.n
        e.assume(zand(0 <= p, p <= n))
        if side == 'left':
            e.assume(zimp(p < n, K(p) >= x))
            e.assume(zimp(p > 0, K(p - 1) < x))
        else:
            e.assume(zimp(p < n, K(p) > x))
            e.assume(zimp(p > 0, K(p - 1) <= x))
        self.inst(x)
        for t in e.state.get('spec_terms', []):
            self.inst(t)
        return SInt(p)

    def coll(self):
        return SymColl(self.has, lambda k: SInt(k), 'sorted', self.n)


# ------------------------------------------------------------------ lists
class VList(list, Born):
    pre = None          # symbolic prefix (ISeq), set by a loop contract

    def __init__(self, it=()):
        if isinstance(it, VList) and it.pre is not None:
            self.pre = it.pre
            it = list.__getitem__(it, slice(None))
        list.__init__(self, it)
        self._tick()

    def seq(self):
        if self.pre is None:
            return self
        if list.__len__(self):
            raise Unsupported('symbolic list with explicit tail')
        return self.pre

    def __iter__(self):
        if self.pre is not None:
            raise Unsupported('native iteration over a symbolic list')
        return list.__iter__(self)

    def length(self):
        if self.pre is not None:
            return self.seq().length()
        return list.__len__(self)

    def __bool__(self):
        if self.pre is not None:
            if list.__len__(self):
                return True
            if self.pre.guard is None:
                return eng().branch(self.pre.n > 0)
            raise Unsupported('truth value of a filtered list')
        return list.__len__(self) > 0

    def append(self, x):
        self._log()
        list.append(self, x)

    def __setitem__(self, i, v):
        self._log()
        if isinstance(i, Sym):
            c = concrete(i)
            if c is None:
                raise Unsupported('store at symbolic list index')
            i = c
        list.__setitem__(self, i, v)

    def __getitem__(self, i):
        if self.pre is not None:
            return self.seq()[i]
        if isinstance(i, Sym):
            c = concrete(i)
            if c is not None:
                return list.__getitem__(self, c)
            for k in range(len(self)):
                if i == k:
                    return list.__getitem__(self, k)
            for k in range(1, len(self) + 1):
                if i == -k:
                    return list.__getitem__(self, -k)
            raise IndexError('list index out of range')
        return list.__getitem__(self, i)

    def extend(self, x):
        self._log()
        list.extend(self, x)

    def insert(self, i, x):
        self._log()
        list.insert(self, i, x)

    def sort(self, key=None, reverse=False):
        self._log()
        from .runtime import v_sorted
        list.__setitem__(self, slice(None), v_sorted(list(self), key=key, reverse=reverse))

    def __add__(self, o):
        return VList(list.__add__(self, list(o)))

    def __contains__(self, x):
        for y in self:
            if y is x or y == x:
                return True
        return False
    __hash__ = None


# ------------------------------------------------------------------ dicts
class VDict(Born):
    """dict: explicit entries (insertion ordered, possibly symbolic keys) over an optional symbolic base
    base = (has(e)->Bool, val(e)->value) indexed by one int; key(e) -> the key object."""

    def __init__(self, pairs=(), base=None, order=None, key=None):
        self.ent = []
        self.base = base
        self.order = order
        self.keyfn = key or (lambda e: SInt(e))
        self.unkey = None
        self.frozen_n = None
        self._tick()
        if isinstance(pairs, VDict):
            self.ent = list(pairs.ent)
            self.base, self.order, self.keyfn, self.unkey = pairs.base, pairs.order, pairs.keyfn, pairs.unkey
        elif isinstance(pairs, dict):
            for k, v in pairs.items():
                self[k] = v
        else:
            for k, v in pairs:
                self[k] = v


    __vc_dict__ = True

    # symbolic test key -> (guard terms)
    def _eq(self, a, b):
        if a is b:
            return True
        if not issym(a) and not issym(b) and _hashable_native(a) and _hashable_native(b):
            return a == b
        r = a == b
        if isinstance(r, Sym):
            return bool(r)
        return bool(r)

    def _find(self, k):
        for i in range(len(self.ent) - 1, -1, -1):
            if self._eq(self.ent[i][0], k):
                return i
        return None

    def base_index(self, k):
        if self.unkey is not None:
            return self.unkey(k)
        if isinstance(k, (SInt, int)) and not isinstance(k, bool):
            return T, iterm(k)
        if isinstance(k, SReal):
            raise Unsupported('real key')
        return F, z3.IntVal(0)

    def has(self, k):
        """symbolic membership (no branching on base)"""
        r = []
        for (a, _) in self.ent:
            q = a == k if (issym(a) or issym(k) or not _hashable_native(a)) else (a == k)
            r.append(zb(q) if not isinstance(q, bool) else (T if q else F))
        if self.base is not None:
            ok, t = self.base_index(k)
            r.append(zand(ok, self.base[0](t)))
        return SBool(zor(*r)) if r else SBool(F)

    def contains(self, k):
        return self.has(k)

    def __contains__(self, k):
        return bool(self.has(k))

    def __getitem__(self, k):
        i = self._find(k)
        if i is not None:
            return self.ent[i][1]
        if self.base is not None:
            ok, t = self.base_index(k)
            if eng().branch(zand(ok, self.base[0](t))):
                return self.base[1](t)
        raise KeyError(k)

    def __setitem__(self, k, v):
        self._log()
        i = self._find(k)
        if i is not None:
            self.ent[i] = (self.ent[i][0], v)
            return
        self.ent.append((k, v))

    def __delitem__(self, k):
        self._log()
        i = self._find(k)
        if i is None:
            if self.base is not None:
                raise Unsupported('del from a symbolic map')
            raise KeyError(k)
        del self.ent[i]

    def get(self, k, default=None):
        try:
            return self[k]
        except KeyError:
            return default

    def pop(self, k, *d):
        try:
            v = self[k]
        except KeyError:
            if d:
                return d[0]
            raise
        del self[k]
        return v

    def setdefault(self, k, d=None):
        if k in self:
            return self[k]
        self[k] = d
        return d

    def update(self, *o, **kw):
        for x in o:
            if isinstance(x, VDict):
                if x.base is not None:
                    raise Unsupported('update from a symbolic map')
                for k, v in x.ent:
                    self[k] = v
            elif hasattr(x, 'keys'):
                for k in x.keys():
                    self[k] = x[k]
            else:
                for k, v in x:
                    self[k] = v
        for k, v in kw.items():
            self[k] = v

    def copy(self):
        return VDict(self)

    def clear(self):
        self._log()
        self.ent, self.base = [], None

    def _nobase(self, what):
        if self.base is not None:
            raise Unsupported(f'{what} of a symbolic map')

    def keys(self):
        if self.base is None:
            return VList([k for k, _ in self.ent])
        return self._coll(lambda e: self.keyfn(e), lambda k, v: k)

    def values(self):
        if self.base is None:
            return VList([v for _, v in self.ent])
        val = self.base[1]
        return self._coll(lambda e: val(e), lambda k, v: v)

    def items(self):
        if self.base is None:
            return VList([(k, v) for k, v in self.ent])
        val, kf = self.base[1], self.keyfn
        return self._coll(lambda e: (kf(e), val(e)), lambda k, v: (k, v))

    def _coll(self, elem, over):
        has = self.base[0]
        if not self.ent:
            n = self._n()
            c = SymColl(has, elem, self.order, n)
            return c
        # entries on top of the base: only integer keys
        ent = list(self.ent)
        for k, _ in ent:
            if not isinstance(k, (SInt, int)):
                raise Unsupported('mixed symbolic map')

        def g(e):
            return zor(has(e), *[e == iterm(k) for k, _ in ent])

        def el(e):
            for k, v in reversed(ent):
                q = _simp(e == iterm(k))
                if z3.is_true(q):
                    return over(k, v)
                if not z3.is_false(q) and elem(e) is not None and not isinstance(elem(e), SInt):
                    raise Unsupported('element of a mixed symbolic map')
            return elem(e)
        return SymColl(g, el, None, None)

    def _n(self):
        e = eng()
        m = e.state.setdefault('mapn', {})
        k = id(self.base)
        if k not in m:
            n = e.fresh(Z, 'nmap')
            e.assume(n >= 0)
            m[k] = (self.base, n)
        return m[k][1]

    def length(self):
        if self.base is None:
            return len(self.ent)
        if not self.ent:
            return sint(self._n())
        raise Unsupported('len of a mixed symbolic map')

    def __len__(self):
        if self.base is None:
            return len(self.ent)
        raise Unsupported('native len of a symbolic map')

    def __iter__(self):
        if self.base is None:
            return iter([k for k, _ in self.ent])
        raise Unsupported('native iteration over a symbolic map')

    def __bool__(self):
        if self.base is None:
            return bool(self.ent)
        if self.ent:
            return True
        return eng().branch(self._n() > 0)

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (VDict, dict)):
            if self.base is not None or (isinstance(o, VDict) and o.base is not None):
                raise Unsupported('comparison of symbolic maps')
            if len(self) != len(o):
                return False
            for k, v in self.ent:
                if k not in o:
                    return False
                if not (o[k] == v):
                    return False
            return True
        return False
    __hash__ = None

    def __repr__(self):
        return f'VDict({self.ent}{", +base" if self.base else ""})'


def _hashable_native(x):
    return isinstance(x, (str, int, float, bool, bytes, type(None))) or (isinstance(x, tuple) and all(_hashable_native(y) for y in x))


# ------------------------------------------------------------------ loops
class Inv:
    """definitional loop invariant of one carried value"""

    def entry(self, d, v): pass
    def havoc(self, d, v): raise NotImplementedError
    def check(self, d, v): pass


class CandInv(Inv):
    """Houdini-style: the first surviving candidate fn(driver) -> value at driver.pos; failing ones are dropped and exploration restarts"""

    def __init__(self, name, cands, eq=None):
        self.name, self.cands, self.eq = name, cands, eq or (lambda a, b: same(a, b))

    def _live(self, d):
        dr = d.info['dropped']
        return [(k, f) for k, f in self.cands if (self.name, k) not in dr]

    def _drop(self, d, k):
        d.info['dropped'].add((self.name, k))
        raise Restart()

    def entry(self, d, v):
        for k, f in self._live(d):
            w = f(d)
            if w is None or not eng().known(self.eq(v, w)):
                self._drop(d, k)
            return

    def havoc(self, d, v):
        for k, f in self._live(d):
            return f(d)
        eng().abstract = True
        r = fresh_like(v, 'hv')
        return r if r is not None else Undef(self.name)

    def check(self, d, v):
        for k, f in self._live(d):
            if not eng().known(self.eq(v, f(d))):
                self._drop(d, k)
            return


class ArrInv(CandInv):
    """candidates for an array updated in place or rebound: fn(driver) -> Arr"""

    def _eqarr(self, v, w):
        if not getattr(v, '__vc_arr__', False) or len(v.shape) != len(w.shape):
            return F
        e = eng()
        i = tuple(e.fresh(Z, 'ai') for _ in v.shape)
        return zand(*[zb(a == b) for a, b in zip(v.shape, w.shape)],
                    zimp(zand(v.inrange(*i), self.where(*i) if self.where else T), zand(v.m(*i) == w.m(*i), zimp(znot(v.m(*i)), same(v.at(*i), w.at(*i))))))

    def __init__(self, name, cands, where=None):
        CandInv.__init__(self, name, cands, self._eqarr)
        self.where = where      # cells the invariant speaks about (elsewhere the array is arbitrary)

    def havoc(self, d, v):
        for k, f in self._live(d):
            w = f(d)
            if self.where:
                u = v.fresh_like('unconstrained')
                w = type(w)(w.shape, (lambda w, u: lambda *i: core.ite(self.where(*i), w.at(*i), u.at(*i)))(w, u), w.dtype)
            if self.name in d.mut:
                v.set_from(w)
                return v
            return w
        eng().abstract = True
        w = v.fresh_like('hv')
        if self.name in d.mut:
            v.set_from(w)
            return v
        return w


class SeqInv(Inv):
    """list built by appending elem(pos) at every position where guard(pos)"""

    def __init__(self, name, guard, elem, eq):
        self.name, self.guard, self.elem, self.eq = name, guard, elem, eq

    def dead(self, d):
        return (self.name, 'seq') in d.info['dropped']

    def entry(self, d, v):
        if len(v) or v.pre is not None:
            d.info['dropped'].add((self.name, 'seq'))

    def havoc(self, d, v):
        if self.dead(d):
            raise Unsupported('list built in a loop without contract')
        lo = d.lo
        g = self.guard
        v.pre = ISeq(_simp(d.pos - lo), lambda j: self.elem(lo + j), (lambda j: g(lo + j)) if g else None)
        v.pre.abs = (lo, d.pos, self.elem, g)
        list.__delitem__(v, slice(None))
        return v

    def check(self, d, v):
        e = eng()
        p = d.pos_prev
        tail = list.__getitem__(v, slice(None))
        ok = F
        g = self.guard(p) if self.guard else T
        if len(tail) == 0:
            ok = znot(g)
        elif len(tail) == 1:
            ok = zand(g, self.eq(tail[0], self.elem(p)))
        if not e.known(ok):
            d.info['dropped'].add((self.name, 'seq'))
            raise Restart()


class FreshInv(Inv):
    def havoc(self, d, v):
        return fresh_like(v, 'hv')


def fresh_like(v, name):
    e = eng()
    if isinstance(v, (bool, SBool)):
        return SBool(e.fresh(B, name))
    if isinstance(v, (int, SInt)):
        return SInt(e.fresh(Z, name))
    if isinstance(v, (float, SReal)):
        return SReal(e.fresh(R, name))
    if getattr(v, '__vc_arr__', False):
        return v.fresh_like(name)
    if isinstance(v, str) or type(v).__name__ == 'SStr':
        from .syms import SStr
        return SStr(e.fresh(z3.StringSort(), name))
    return None


class AttrSet:
    """attribute assignment on an object (for the mutation log)"""

    def __init__(self, o, name):
        self.o, self.name = o, name
        self._born = eng().births.get(id(o), (0,))[0]


class Driver:
    def __init__(self, site, iterable, names):
        self.site, self.iterable, self.names = site, iterable, names
        self.values = {}
        self.cur = None
        self.sym = isinstance(iterable, (SRange, ISeq, SymColl, SortedKeys)) or getattr(iterable, '__vc_symiter__', False)
        if isinstance(iterable, tuple) and len(iterable) == 1 and isinstance(iterable[0], StarSeq):
            self.iterable = iterable[0].seq
            self.sym = True
        if isinstance(self.iterable, VList) and self.iterable.pre is not None:
            self.iterable = self.iterable.seq()
            self.sym = True
        self.phase = 0
        self.clock = eng().clock
        if isinstance(self.iterable, Undef):
            self.iterable._u()
        if not self.sym:
            if isinstance(iterable, VDict):
                if iterable.base is not None:
                    self.iterable = iterable.keys()
                    self.sym = True
                else:
                    self.it = iter([k for k, _ in iterable.ent])
            elif getattr(iterable, '__vc_arr__', False):
                r = iterable.rows()
                if isinstance(r, list):
                    self.it = iter(r)
                else:
                    self.iterable, self.sym = r, True
            else:
                self.it = iter(iterable)

    def step(self, loc):
        if not self.sym:
            self.values = {}
            try:
                self.cur = next(self.it)
                return True
            except StopIteration:
                return False
        if self.phase == 0:
            return self.start(loc)
        return self.end(loc)

    # -- symbolic loops
    def start(self, loc):
        e = eng()
        it = self.iterable
        info = e.loop_info.setdefault(self.site, {'mut': [], 'dropped': set()})
        self.info = info
        self.entry = {n: loc[n] for n in self.names if n in loc and not isinstance(loc[n], Undef)}
        self.loc = loc
        self.mut = {}
        for path in info['mut']:
            o = resolve(loc, path)
            if o is None:
                raise Unsupported(f'mutated container {path} not found at loop {self.site}')
            self.mut[path] = o
        self.attrs = {}         # attributes of outliving objects assigned in the loop: path -> (object, name)
        for path in info.get('attrs', ()):
            root, n = path.split('.')
            o = loc.get(root)
            if o is None or n not in getattr(o, '__dict__', {}):
                raise Unsupported(f'attribute {path} not found at loop {self.site}')
            self.attrs[path] = (o, n)
            self.entry[path] = getattr(o, n)
        spec = e.state.get('loop_spec')
        # loop position
        if isinstance(it, SRange):
            self.lo, self.hi, self.st = it.lo, it.hi, it.st
        elif isinstance(it, ISeq):
            self.lo, self.hi, self.st = z3.IntVal(0), it.n, z3.IntVal(1)
        else:
            raise Unsupported(f'loop over {type(it).__name__}')
        self.pos = self.lo       # state "before the element at pos" during entry checks
        self.invs = (spec(self) if spec else {}) or {}
        for k, inv in list(self.invs.items()):
            v = self.entry.get(k, self.mut.get(k))
            if v is None and k not in self.entry and k not in self.mut:
                del self.invs[k]
                continue
            inv.entry(self, v)
        # choose: arbitrary iteration or exit
        c = e.choose(2)
        self.pos = e.fresh(Z, 'pos')
        p = self.pos
        e.assume(p >= self.lo)
        e.assume(cong(p - self.lo, self.st))
        cong_step(p - self.lo, self.st)
        if c == 0:
            e.assume(p < self.hi)
        else:
            e.assume(p >= self.hi)
            e.assume(zor(p - self.st < self.hi, p == self.lo))
            if z3.is_int_value(_simp(self.st)) and _simp(self.st).as_long() == 1:
                e.assume(zor(p == self.hi, p == self.lo))
        op = e.state.get('on_pos')
        if op is not None and isinstance(it, SRange) and c == 0:
            op(self)
        if not e.feasible(T):
            raise PathEnd()
        vals = {}
        for n in self.names:
            if n in self.invs:
                vals[n] = self.invs[n].havoc(self, self.entry[n])
            elif n in self.entry:
                f = fresh_like(self.entry[n], n)
                if f is not None:
                    e.abstract = True
                vals[n] = f if f is not None else Undef(n)
            elif c == 1:
                vals[n] = Undef(n)
        for path, o in self.mut.items():
            if path in self.invs:
                self.invs[path].havoc(self, o)
            else:
                e.abstract = True
                havoc_container(o)
        for path, (o, n) in self.attrs.items():
            v = self.entry[path]
            if path in self.invs:
                f = self.invs[path].havoc(self, v)
            else:
                f = fresh_like(v, n)
                if f is None:
                    f = Undef(path)
                e.abstract = True
            object.__setattr__(o, n, f)
        self.values = vals
        self.mutmark = len(e.mutlog)
        self.phase = 1
        if c == 1:
            self.phase = 2
            return False
        if isinstance(it, SRange):
            self.cur = sint(p)
        else:
            g = it.guard
            if g is not None and not e.branch(g(p)):
                # filtered-out element: state unchanged
                self.end(dict(loc, **vals))
            self.cur = it.elem(p)
        return True

    def end(self, loc):
        e = eng()
        new = []
        for o in e.mutlog[self.mutmark:]:
            if isinstance(o, AttrSet) and o._born <= self.clock:
                if any(o.o is x and o.name == n for x, n in self.attrs.values()):
                    continue
                root = next((k for k, v in self.loc.items() if v is o.o and not k.startswith('__vc')), None)
                if root is None:
                    raise Unsupported(f'loop {self.site} assigns an attribute of an object that cannot be named')
                self.info.setdefault('attrs', []).append(f'{root}.{o.name}')
                raise Restart()
            if o._born <= self.clock and not any(o is m for m in self.mut.values()):
                path = locate(self.loc, o) or locate(loc, o)
                if path is None:
                    raise Unsupported(f'loop {self.site} mutates a {type(o).__name__} that cannot be named')
                if path not in self.info['mut'] and path not in new:
                    new.append(path)
        if new:
            # a plain name that is both rebound and mutated in place needs no separate entry
            new2 = [p for p in new if p not in self.invs or True]
            self.info['mut'] += new2
            raise Restart()
        nxt = _simp(self.pos + self.st)
        self.pos_prev, self.pos = self.pos, nxt
        for k, inv in self.invs.items():
            if k in self.mut:
                inv.check(self, self.mut[k])
            elif k in self.attrs:
                inv.check(self, getattr(*self.attrs[k]))
            else:
                v = loc.get(k)
                if isinstance(v, Undef) or k not in loc:
                    raise Unsupported(f'{k} lost')
                inv.check(self, v)
        raise PathEnd()


class StarSeq:
    """stands for *seq of a symbolic sequence in a call"""
    __vc_sym__ = True

    def __init__(self, seq): self.seq = seq


def havoc_container(o):
    if getattr(o, '__vc_arr__', False):
        f = o.fresh_like('hv')
        o.set_from(f)
        return
    raise Unsupported(f'loop changes a {type(o).__name__} that has no invariant')


def resolve(loc, path):
    parts = path.split('.')
    if parts[0] not in loc:
        return None
    o = loc[parts[0]]
    for p in parts[1:]:
        if p == '<owner>':
            while getattr(o, 'base', None) is not None:
                o = o.base[0]
        elif isinstance(o, VDict):
            o = o.get(p)
        else:
            o = getattr(o, '__dict__', {}).get(p)
        if o is None:
            return None
    return o


def locate(loc, o):
    for k, v in loc.items():
        if v is o and not k.startswith('__vc'):
            return k
    for k, v in loc.items():
        d = getattr(v, '__dict__', None)
        if d and not k.startswith('__vc') and not isinstance(v, type):
            for k2, v2 in list(d.items()):
                if v2 is o:
                    return f'{k}.{k2}'
    for k, v in loc.items():
        # the array whose data a named view shows
        if getattr(v, '__vc_arr__', False) and not k.startswith('__vc') and v.base is not None and resolve(loc, f'{k}.<owner>') is o:
            return f'{k}.<owner>'
    return None


class WhileDriver:
    """Concrete loops run natively. A loop whose course depends on symbolic decisions is cut by the last-iteration rule:
    the state after the loop is the state before it, the state after one iteration from the entry state, or the state
    after one iteration from an arbitrary state (assigned names havocked; ints that only grow keep their lower bound)."""
    LIMIT = 12

    def __init__(self, site, names):
        self.site, self.names, self.n = site, names, 0
        self.values = {}
        self.mode = 0
        self.clock = eng().clock
        sp = eng().state.get('while_spec')
        self.spec = sp(self) if sp else None

    def leave(self):
        if self.mode == 2 and self.n == 1:
            raise PathEnd()

    def step(self, loc):
        if self.spec is not None:
            return self.spec.step(self, loc)
        e = eng()
        self.n += 1
        self.values = {}
        info = e.loop_info.setdefault(self.site, {'mut': [], 'dropped': set()})
        if self.n == 1 and info.get('cut'):
            self.mark = len(e.mutlog)
            self.mode = 1 + e.choose(2)
            if self.mode == 2:
                vals = {}
                for n in self.names:
                    if n not in loc or isinstance(loc[n], Undef):
                        continue
                    v = loc[n]
                    f = v if v is None else fresh_like(v, n)
                    if f is None:
                        f = Undef(n)
                    if isinstance(f, SInt) and (n, 'grow') not in info['dropped']:
                        e.assume(f.t >= iterm(v))
                    vals[n] = f
                self.values = vals
                self.start_vals = dict(vals)
        elif self.mode and self.n == 2:
            for o in e.mutlog[self.mark:]:
                if getattr(o, '_born', 0) <= self.clock:
                    raise Unsupported(f'while loop {self.site} changes an object that outlives it')
            for n in self.names:
                v = (self.start_vals if self.mode == 2 else {}).get(n)
                if isinstance(v, SInt) and (n, 'grow') not in info['dropped'] and not e.known(iterm(loc[n]) >= v.t):
                    info['dropped'].add((n, 'grow'))
                    raise Restart()
        elif self.mode and self.n > 2:
            raise PathEnd()
        elif self.n > 1 and not info.get('cut') and e.state.get('while_decisions') != len(e.decisions):
            info['over'] = info.get('over', 0) + 1
            if self.n > 3:
                info['cut'] = True
                raise Restart()
        if self.n > 20000:
            raise Unsupported(f'while loop {self.site} needs a contract')
        e.state['while_decisions'] = len(e.decisions)
        return True
