"""Runtime helpers and builtins of the instrumented code."""
import builtins as _b
import types
import z3

from . import core, containers as C
from .core import SInt, SReal, SBool, Sym, lift, Unsupported, eng, concrete, toint, toreal, zb, zand, zor, znot, ew
from .containers import VList, VDict, SymColl, SortedKeys, ISeq, SRange, issym, StarSeq, sint
from .syms import SStr, sformat, fstr


class Missing:
    """something of an external library that has no model"""
    __vc_sym__ = False

    def __init__(self, name): self._name = name

    def __call__(self, *a, **k):
        raise Unsupported(f'no model for {self._name}')

    def __getattr__(self, n):
        if n.startswith('__') or n == '_name':
            raise AttributeError(n)
        return Missing(f'{self._name}.{n}')

    def __mro_entries__(self, bases):
        return ()


class ModelModule(types.ModuleType):
    def __init__(self, name, d):
        super().__init__(name)
        self.__dict__.update(d)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        m = Missing(f'{self.__name__}.{n}')
        return m


class ErrClass(Exception):
    pass


# ---------------------------------------------------------------- builtin types
class BT:
    """shadow of a builtin type usable as constructor, in isinstance and as dtype"""

    def __init__(self, ty, conv, inst):
        self.ty, self.conv, self.inst = ty, conv, inst
        self.__name__ = ty.__name__

    def __call__(self, *a, **k):
        return self.conv(*a, **k)

    def __getattr__(self, n):
        return getattr(self.ty, n)

    def __eq__(self, o):
        return o is self or o is self.ty
    def __hash__(self): return hash(self.ty)

    def __or__(self, o): return (self, o)

    def __mro_entries__(self, bases):
        return (self.ty,)


def v_int(x=0, *a):
    if isinstance(x, str) or a:
        return int(x, *a)
    if isinstance(x, SStr):
        return x.to_int()
    if getattr(x, '__vc_arr__', False):
        x = x.item()
    if isinstance(x, Sym):
        x = toint(x)
        if isinstance(x, SInt):
            return sint(x.t)
        if eng().branch(zor(x.nan, x.inf != 0)):
            raise ValueError('cannot convert float NaN to integer')
        r = ew('trunc', x)
        return sint(core._simp(z3.ToInt(r.t)))
    if hasattr(x, '__vc_opaque_int__'):
        return x.__vc_opaque_int__()
    return int(x)


def v_float(x=0.0):
    if getattr(x, '__vc_arr__', False):
        x = x.item()
    if isinstance(x, Sym):
        r = toreal(x)
        return SReal(r.t, r.nan, r.inf, False)
    if isinstance(x, SStr):
        return x.to_float()
    return float(x)


def v_str(x='', *a):
    if isinstance(x, SStr):
        return x
    if issym(x):
        return fstr((x, -1, ''))
    if hasattr(type(x), '__str__') and not isinstance(x, (str, int, float, bytes, list, tuple, dict)):
        r = type(x).__str__(x) if not isinstance(x, type) else str(x)
        return r
    return str(x, *a)


def v_bool(x=False):
    if isinstance(x, Sym):
        c = core.tobool(x)
        cc = concrete(c)
        return cc if cc is not None else c
    return bool(x)


def v_list(x=()):
    if isinstance(x, VList) and x.pre is not None:
        return VList(x)
    if isinstance(x, (SymColl, SortedKeys, ISeq, SRange)):
        return x
    if isinstance(x, VDict):
        return v_list(x.keys())
    if getattr(x, '__vc_arr__', False):
        r = x.rows()
        return VList(r) if isinstance(r, list) else r
    if isinstance(x, zip_) or isinstance(x, C.Undef):
        x = iter(x)
    return VList(x)


def v_tuple(x=()):
    if isinstance(x, (SymColl, SortedKeys, ISeq, SRange)):
        return x
    if getattr(x, '__vc_arr__', False):
        r = x.rows()
        return tuple(r) if isinstance(r, list) else r
    return tuple(x)


def v_dict(x=(), **kw):
    if isinstance(x, SymColl):
        return dict_of_coll(x)
    d = VDict(x if not isinstance(x, types.GeneratorType) else list(x))
    for k, v in kw.items():
        d[k] = v
    return d


def dict_of_coll(c):
    e = eng()
    k = e.fresh(core.Z, 'e')
    with C.NoBranch():
        el = c.elem(k)
    key, val = el
    elem = c.elem
    if isinstance(key, SInt) and key.t.eq(k):
        d = VDict(base=(c.guard, lambda t: elem(t)[1]), order=c.order)
        e.state.setdefault('mapn', {})
        if c.n is not None:
            e.state['mapn'][id(d.base)] = (d.base, c.n)
        return d
    # same keys as the source map (e.g. {key: f(v) for key, v in m.items()})
    src = getattr(c, 'srcmap', None)
    d = VDict(base=(c.guard, lambda t: elem(t)[1]), order=c.order, key=lambda t: elem(t)[0])
    uk = e.state.get('unkey')
    if uk is None:
        raise Unsupported('dict over symbolic collection with non-integer keys')
    ok, t = uk(key)
    if not e.known(zand(ok, t == k)):
        raise Unsupported('dict over symbolic collection: keys not recognised')
    d.unkey = uk
    if c.n is not None:
        e.state['mapn'][id(d.base)] = (d.base, c.n)
    return d


def v_set(x=()):
    if issym(x):
        return x
    x = list(x)
    if any(issym(y) for y in x):
        return VList(x)
    return set(x)


def _isarr(x): return getattr(x, '__vc_arr__', False)


BT_INT = BT(int, v_int, lambda x: isinstance(x, SInt) and not x.np)
BT_FLOAT = BT(float, v_float, lambda x: isinstance(x, SReal))
BT_STR = BT(str, v_str, lambda x: isinstance(x, SStr))
BT_BOOL = BT(bool, v_bool, lambda x: isinstance(x, SBool))
BT_LIST = BT(list, v_list, lambda x: isinstance(x, (SymColl, SortedKeys, ISeq)))
BT_TUPLE = BT(tuple, v_tuple, lambda x: False)
BT_DICT = BT(dict, v_dict, lambda x: isinstance(x, VDict))
BT_SET = BT(set, v_set, lambda x: False)


def v_isinstance(x, cls):
    if isinstance(cls, tuple):
        return any(v_isinstance(x, c) for c in cls)
    if isinstance(cls, BT):
        if cls.inst(x):
            return True
        if cls.ty is int and isinstance(x, SBool):
            return True
        if isinstance(x, (Sym, VDict)) or _isarr(x):
            return False
        return isinstance(x, cls.ty)
    if isinstance(cls, Missing):
        raise Unsupported(f'isinstance with {cls._name}')
    chk = getattr(cls, '__vc_instancecheck__', None)
    if chk is not None:
        return chk(x)
    if cls is int:
        return v_isinstance(x, BT_INT)
    if isinstance(x, C.Undef):
        x._u()
    return isinstance(x, cls)


def v_len(x):
    if hasattr(x, 'length') and not isinstance(x, (type, list)) or isinstance(x, VList):
        return x.length()
    if _isarr(x):
        return x.shape[0]
    return len(x)


def v_abs(x):
    return abs(x)


def _minmax(op):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            x = a[0]
            if isinstance(x, ISeq):
                return seq_minmax(op, x)
            if _isarr(x):
                return x.min() if op == 'min' else x.max()
            if isinstance(x, (SymColl, SortedKeys)):
                if isinstance(x, SymColl):
                    hook = eng().state.get('minmax_coll')
                    if hook:
                        return hook(op, x, key)
                    x = SortedKeys.of(x)
                return x[0] if op == 'min' else x[-1]
            a = list(x)
        if not a:
            raise ValueError('empty sequence')
        if key is not None or not all(core.liftable(x) for x in a):
            kf = key or (lambda v: v)
            r = a[0]
            for y in a[1:]:
                if (kf(y) < kf(r)) if op == 'min' else (kf(y) > kf(r)):
                    r = y
            return r
        r = a[0]
        for y in a[1:]:
            if not isinstance(r, Sym) and not isinstance(y, Sym):
                r = (min if op == 'min' else max)(r, y)
            else:
                r = ew(op, r, y)
                if isinstance(r, SInt):
                    r = sint(r.t)
        return r
    return f


def seq_minmax(op, s):
    e = eng()
    if e.branch(s.n <= 0):
        raise ValueError('empty sequence')
    m = e.fresh(core.Z, op)
    w = e.fresh(core.Z, op + 'ix')
    e.assume(zand(0 <= w, w < s.n, C.iterm(s.elem(w)) == m))
    j = z3.Int('j!q')
    el = C.iterm(s.elem(j))
    body = z3.Implies(z3.And(0 <= j, j < s.n), (m <= el) if op == 'min' else (m >= el))
    e.assume(z3.ForAll([j], body))
    return SInt(m)


def v_sum(x, start=0):
    if isinstance(x, (ISeq, SymColl)):
        raise Unsupported('sum of a symbolic sequence')
    if _isarr(x):
        return x.sum()
    r = start
    for y in x:
        r = r + y
    return r


def v_sorted(x, key=None, reverse=False):
    if isinstance(x, VDict):
        x = x.keys()
    if isinstance(x, SortedKeys):
        return x
    if isinstance(x, SymColl):
        e = eng()
        k = e.fresh(core.Z, 'e')
        with C.NoBranch():
            el = x.elem(k)
            kv = key(el) if key else el
        if isinstance(kv, tuple):
            kv = kv[0]
        if hasattr(kv, '__dict__') and not isinstance(kv, Sym):
            raise Unsupported('sort by object')
        if isinstance(kv, SInt) and kv.t.eq(k):
            if reverse:
                raise Unsupported('reverse sort of a symbolic collection')
            if isinstance(el, SInt):
                return SortedKeys.of(x)
            return SymColl(x.guard, x.elem, 'sorted', x.n)
        raise Unsupported('sort key of a symbolic collection')
    if isinstance(x, ISeq):
        hook = eng().state.get('sort_iseq')
        if hook:
            return hook(x, key, reverse)
        raise Unsupported('sort of a symbolic sequence')
    xs = list(x)
    ks = [key(y) if key else y for y in xs]
    # insertion sort (stable) so that symbolic comparisons branch
    if not any(issym(k) or hasattr(k, '__dict__') or isinstance(k, tuple) for k in ks):
        return VList(sorted(xs, key=key, reverse=reverse))
    out = []
    for y, k in zip(xs, ks):
        i = len(out)
        while i > 0 and ((k < out[i - 1][1]) if not reverse else (out[i - 1][1] < k)):
            i -= 1
        out.insert(i, (y, k))
    return VList([y for y, _ in out])


class zip_:
    pass


def v_zip(*a):
    if any(isinstance(x, (ISeq, SortedKeys, SymColl)) or (_isarr(x) and not x.concrete_rows()) for x in a):
        seqs = []
        for x in a:
            if _isarr(x):
                x = x.rows()
            if not isinstance(x, ISeq):
                raise Unsupported('zip of symbolic collections')
            seqs.append(x)
        n = seqs[0].n
        e = eng()
        for s in seqs[1:]:
            if not e.known(s.n == n):
                raise Unsupported('zip of sequences of different length')
        if any(s.guard is not None for s in seqs):
            raise Unsupported('zip of filtered sequences')
        return ISeq(n, lambda j: tuple(s.elem(j) for s in seqs))
    a = [x.rows() if _isarr(x) else x for x in a]
    return zip(*a)


def v_enumerate(x, start=0):
    if isinstance(x, VDict) and x.base is None:
        x = list(x)
    if _isarr(x):
        x = x.rows()
    if isinstance(x, ISeq):
        if x.guard is not None:
            raise Unsupported('enumerate filtered')
        return ISeq(x.n, lambda j: (sint(j + C.iterm(start)), x.elem(j)))
    if issym(x):
        raise Unsupported('enumerate symbolic')
    return enumerate(x, start)


def v_map(f, *a):
    if len(a) == 1 and isinstance(a[0], (SymColl, ISeq)):
        return comp('list', a[0], f, None)
    return map(f, *a)


def v_any(x):
    if isinstance(x, (ISeq, SymColl)):
        raise Unsupported('any over symbolic')
    if _isarr(x):
        return x.any()
    for y in x:
        if y:
            return True
    return False


def v_all(x):
    if isinstance(x, (ISeq, SymColl)):
        raise Unsupported('all over symbolic')
    for y in x:
        if not y:
            return False
    return True


def v_round(x, n=None):
    if isinstance(x, Sym):
        if n is not None:
            raise Unsupported('round with digits')
        return sint(z3.ToInt(ew('round', x).t))
    return round(x, n) if n is not None else round(x)


def v_type(x, *a):
    if a:
        return type(x, *a)
    if isinstance(x, SInt): return BT_INT
    if isinstance(x, SReal): return BT_FLOAT
    if isinstance(x, SBool): return BT_BOOL
    if isinstance(x, SStr): return BT_STR
    if isinstance(x, VDict): return BT_DICT
    if isinstance(x, bool): return BT_BOOL
    if isinstance(x, int): return BT_INT
    if isinstance(x, float): return BT_FLOAT
    if isinstance(x, str): return BT_STR
    if isinstance(x, list): return BT_LIST
    if isinstance(x, tuple): return BT_TUPLE
    return type(x)


def v_print(*a, **k):
    pass


def v_filter(f, x):
    if isinstance(x, (SymColl, ISeq)):
        return comp('list', x, lambda y: y, f)
    return [y for y in x if (f(y) if f else y)]


def v_repr(x):
    if issym(x):
        return fstr((x, 114, ''))
    return repr(x)


# ---------------------------------------------------------------- instrumentation helpers
def comp(kind, it, f, cond):
    if isinstance(it, VDict):
        it = it.keys()
    if getattr(it, '__vc_arr__', False):
        it = it.rows()
    if isinstance(it, SRange) and z3.is_int_value(it.st) and it.st.as_long() == 1:
        lo = it.lo
        it = ISeq(core._simp(z3.If(it.hi > it.lo, it.hi - it.lo, z3.IntVal(0))), lambda j: sint(lo + j))
    if isinstance(it, VList) and it.pre is not None:
        it = it.seq()
    if isinstance(it, ISeq):
        elem, g0 = it.elem, it.guard

        n_ = it.n

        def el(j):
            with C.NoBranch(zand(j >= 0, j < n_)):
                return f(elem(j))
        g = g0
        if cond is not None:
            def g(j):
                with C.NoBranch():
                    c = zb(core.tobool(cond(elem(j))))
                return zand(c, g0(j)) if g0 else c
        if kind == 'dict':
            raise Unsupported('dict comprehension over a symbolic sequence')
        return ISeq(it.n, el, g)
    if isinstance(it, SortedKeys):
        it = it.coll()
    if isinstance(it, SymColl):
        r = it.map(f, cond)
        if kind == 'dict':
            return dict_of_coll(r)
        return r
    if isinstance(it, (SRange,)):
        raise Unsupported('comprehension over a symbolic range')
    if isinstance(it, C.Undef):
        it._u()
    if kind == 'gen':
        return (f(x) for x in it if cond is None or cond(x))
    out = []
    for x in it:
        if cond is None or cond(x):
            out.append(f(x))
    if kind == 'dict':
        return VDict(out)
    if kind == 'set':
        return v_set(out)
    return VList(out)


def meth(obj, name):
    if isinstance(obj, str):
        if name == 'format':
            return lambda *a, **k: sformat(obj, a, k)
        if name == 'join':
            def join(xs):
                xs = list(xs)
                if any(isinstance(x, SStr) for x in xs):
                    r = ''
                    for i, x in enumerate(xs):
                        r = vadd(vadd(r, obj), x) if i else x
                    return r
                return obj.join(xs)
            return join
        m = getattr(obj, name)

        def call(*a, **k):
            if any(isinstance(x, SStr) for x in a):
                return getattr(SStr.of(obj), name)(*a, **k)
            return m(*a, **k)
        return call
    if isinstance(obj, dict) and name in ('get', 'items', 'keys', 'values'):
        if name == 'get':
            def get(k, d=None):
                if issym(k):
                    return VDict(obj).get(k, d)
                return obj.get(k, d)
            return get
    return getattr(obj, name)


def vin(x, c):
    if isinstance(c, C.Undef):
        c._u()
    if isinstance(c, BT):
        raise TypeError('argument of type type is not iterable')
    f = getattr(c, 'contains', None)
    if f is not None and not isinstance(c, type):
        r = f(x)
        return r
    if isinstance(c, range):
        if isinstance(x, SInt):
            return SBool(zand(x.t >= c.start, x.t < c.stop, C.cong(x.t - c.start, z3.IntVal(c.step))))
        return x in c
    if isinstance(c, str) and isinstance(x, SStr):
        return SStr.of(c).contains(x)
    if isinstance(c, (tuple, list, set, frozenset)) and (issym(x) or any(issym(y) for y in c)):
        return SBool(zor(*[_eqb(y, x) for y in c]))
    if isinstance(c, dict) and issym(x):
        return SBool(zor(*[_eqb(y, x) for y in c]))
    return x in c


def _eqb(a, b):
    if a is b:
        return core.T
    r = a == b
    if r is NotImplemented:
        return core.F
    return zb(r)


def vmod(a, b):
    if isinstance(a, str):
        t = b if isinstance(b, tuple) else (b,)
        if any(issym(x) for x in t):
            from .syms import strfmt_percent
            return strfmt_percent(a, b)
    return a % b


def vadd(a, b):
    if isinstance(a, str) and isinstance(b, SStr):
        return SStr.of(a) + b
    return a + b


def vstar(x):
    if isinstance(x, VList) and x.pre is not None:
        x = x.seq()
    if isinstance(x, (ISeq, SymColl)):
        return (StarSeq(x),)
    if isinstance(x, VDict):
        return list(x.keys())
    return x


def vc_list(x):
    return VList(x)


def make_builtins(loader):
    d = dict(_b.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        return loader.imp(name, globals, locals, fromlist, level)
    d.update(
        __import__=imp, range=C.mkrange, len=v_len, int=BT_INT, float=BT_FLOAT, str=BT_STR, bool=BT_BOOL, list=BT_LIST,
        tuple=BT_TUPLE, dict=BT_DICT, set=BT_SET, isinstance=v_isinstance, abs=v_abs, min=_minmax('min'), max=_minmax('max'),
        sum=v_sum, sorted=v_sorted, zip=v_zip, enumerate=v_enumerate, map=v_map, filter=v_filter, any=v_any, all=v_all, round=v_round,
        type=v_type, print=v_print, repr=v_repr,
        __vc_list__=vc_list, __vc_dict__=lambda p: VDict(p), __vc_fstr__=fstr, __vc_comp__=comp, __vc_next__=next,
        __vc_meth__=meth, __vc_in__=vin, __vc_mod__=vmod, __vc_star__=vstar, __vc_add__=vadd,
        __vc_fn__=lambda q: eng().note_fn(q),
        __vc_loop__=lambda site, it, names: C.Driver(site, it, names),
        __vc_while__=lambda site, names: C.WhileDriver(site, names),
    )

    built = set()

    def build_class(func, name, *bases, **kw):
        cls = _b.__build_class__(func, name, *bases, **kw)
        if all(b is object or b in built for b in cls.__mro__[1:]):
            built.add(cls)
            if '__setattr__' not in cls.__dict__ and not any('__setattr__' in b.__dict__ for b in cls.__mro__[1:-1]):
                def setattr_(self, n, v):
                    e = eng()
                    if id(self) not in e.births:
                        e.clock += 1
                        e.births[id(self)] = (e.clock, self)
                    e.mutlog.append(C.AttrSet(self, n))
                    object.__setattr__(self, n, v)
                cls.__setattr__ = setattr_
        return cls
    d['__build_class__'] = build_class

    def v_open(*a, **k):
        h = eng().state.get('open')
        if h is not None:
            r = h(*a, **k)
            if r is not NotImplemented:
                return r
        if isinstance(a[0], str) and a[0].endswith('VERSION'):
            return open(*a, **k)
        raise Unsupported('open() without a model')
    d['open'] = v_open
    return d
