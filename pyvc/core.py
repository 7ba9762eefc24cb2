"""pyvc core: symbolic scalars, path exploration and proof obligations.

The code under verification is executed by CPython itself (after the mechanical
instrumentation of load.py) on the symbolic values defined here.  Every use of a
symbolic boolean as a truth value asks the Engine for a decision; the Engine
re-executes the contract harness for every feasible decision sequence.
Obligations (Engine.prove) are discharged by z3 under the path condition.
"""
import time
import z3

z3.set_param('smt.random_seed', 1)


class PathEnd(BaseException):
    """This path is finished (arbitrary-iteration path, infeasible assumption, ...)."""


class Restart(BaseException):
    """Loop facts changed (new havoc target / dropped candidate): explore again."""


class Unsupported(BaseException):
    """Construct outside the verifier's subset; the function falls to the bounded stand-in."""


class SymError(Exception):
    """base for python exceptions raised by models (none by default)"""


ENG = None          # current engine


def eng():
    return ENG


# ----------------------------------------------------------------- z3 helpers
T = z3.BoolVal(True)
F = z3.BoolVal(False)


def zb(x):
    """to z3 Bool"""
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, bool):
        return T if x else F
    if isinstance(x, z3.BoolRef):
        return x
    if type(x).__name__ in ('bool_', 'bool'):
        return T if x else F
    raise Unsupported(f'not a boolean: {x!r}')


def zand(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_true(x)]
    if any(z3.is_false(x) for x in a):
        return F
    if not a:
        return T
    return a[0] if len(a) == 1 else z3.And(*a)


def zor(*a):
    a = [zb(x) for x in a]
    a = [x for x in a if not z3.is_false(x)]
    if any(z3.is_true(x) for x in a):
        return T
    if not a:
        return F
    return a[0] if len(a) == 1 else z3.Or(*a)


def znot(a):
    a = zb(a)
    if z3.is_true(a):
        return F
    if z3.is_false(a):
        return T
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def zimp(a, b):
    return zor(znot(a), b)


def is_const(b):
    return z3.is_true(b) or z3.is_false(b)


# ----------------------------------------------------------------- scalars
class Sym:
    __slots__ = ()
    __hash__ = object.__hash__


def lift(x):
    """python/symbolic scalar -> Sym scalar"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, bool):
        return SBool(T if x else F)
    if isinstance(x, int):
        return SInt(z3.IntVal(x))
    if isinstance(x, float):
        if x != x:
            return SReal(z3.RealVal(0), nan=T)
        if x in (float('inf'), float('-inf')):
            return SReal(z3.RealVal(0), inf=z3.IntVal(1 if x > 0 else -1))
        from fractions import Fraction
        f = Fraction(repr(x)) if 'e' not in repr(x) else Fraction(x).limit_denominator(10 ** 40) if False else Fraction(repr(x))
        return SReal(z3.Q(f.numerator, f.denominator))
    if isinstance(x, z3.BoolRef):
        return SBool(x)
    if isinstance(x, z3.ArithRef):
        return SInt(x) if x.is_int() else SReal(x)
    w = getattr(x, '__vc_lift__', None)
    if w is not None:
        return w()
    raise Unsupported(f'cannot lift {type(x).__name__}: {x!r}')


def liftable(x):
    return isinstance(x, (Sym, bool, int, float, z3.ArithRef, z3.BoolRef)) or hasattr(x, '__vc_lift__')


I0 = z3.IntVal(0)


def _simp(t):
    return z3.simplify(t)


class SBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def __and__(self, o): return SBool(zand(self, tobool(o)))
    __rand__ = __and__
    def __or__(self, o): return SBool(zor(self, tobool(o)))
    __ror__ = __or__
    def __xor__(self, o): return SBool(z3.Xor(zb(self), zb(tobool(o))))
    __rxor__ = __xor__
    def __invert__(self): return SBool(znot(self))
    def __eq__(self, o):
        if isinstance(o, (SBool, bool)):
            return SBool(_simp(zb(self) == zb(o)))
        if liftable(o):
            return toint(self) == o
        return False
    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else ~r
    __hash__ = object.__hash__
    def __add__(self, o): return toint(self) + o
    __radd__ = __add__
    def __mul__(self, o): return toint(self) * o
    __rmul__ = __mul__
    def __sub__(self, o): return toint(self) - o
    def __rsub__(self, o): return o - toint(self)
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self
    def __repr__(self):
        return f'SBool({self.t})'


def tobool(x):
    x = lift(x)
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return SBool(_simp(x.t != 0))
    if isinstance(x, SReal):
        return SBool(zor(x.nan, x.inf != 0, _simp(x.t != 0)))
    raise Unsupported('tobool')


def toint(x):
    x = lift(x)
    if isinstance(x, SBool):
        if z3.is_true(x.t): return SInt(z3.IntVal(1))
        if z3.is_false(x.t): return SInt(I0)
        return SInt(z3.If(x.t, z3.IntVal(1), I0))
    return x


def toreal(x):
    x = toint(x)
    if isinstance(x, SInt):
        if z3.is_int_value(x.t):
            return SReal(z3.RealVal(x.t.as_long()))
        return SReal(z3.ToReal(x.t))
    return x


def concrete(x):
    """python value of a constant Sym, else None"""
    if isinstance(x, SInt) and z3.is_int_value(x.t):
        return x.t.as_long()
    if isinstance(x, SBool) and is_const(x.t):
        return z3.is_true(x.t)
    return None


class SNum(Sym):
    __slots__ = ()

    # python semantics: ZeroDivisionError for scalars (np=False)
    def __add__(self, o): return _bin('+', self, o)
    def __radd__(self, o): return _bin('+', o, self)
    def __sub__(self, o): return _bin('-', self, o)
    def __rsub__(self, o): return _bin('-', o, self)
    def __mul__(self, o): return _bin('*', self, o)
    def __rmul__(self, o): return _bin('*', o, self)
    def __truediv__(self, o): return _bin('/', self, o)
    def __rtruediv__(self, o): return _bin('/', o, self)
    def __floordiv__(self, o): return _bin('//', self, o)
    def __rfloordiv__(self, o): return _bin('//', o, self)
    def __mod__(self, o): return _bin('%', self, o)
    def __rmod__(self, o):
        if isinstance(o, str):
            from .syms import strfmt_percent
            return strfmt_percent(o, self)
        return _bin('%', o, self)
    def __pow__(self, o): return _bin('**', self, o)
    def __rpow__(self, o): return _bin('**', o, self)
    def __lt__(self, o): return _bin('<', self, o)
    def __le__(self, o): return _bin('<=', self, o)
    def __gt__(self, o): return _bin('>', self, o)
    def __ge__(self, o): return _bin('>=', self, o)
    def __eq__(self, o):
        return _bin('==', self, o) if _numlike(o) else False
    def __ne__(self, o):
        return _bin('!=', self, o) if _numlike(o) else True
    __hash__ = object.__hash__
    def __neg__(self): return ew('neg', self)
    def __pos__(self): return self
    def __abs__(self): return ew('abs', self)
    def __bool__(self):
        return bool(tobool(self))
    def item(self): return self
    def __float__(self):
        raise Unsupported('native float() of a symbolic value')
    def __int__(self):
        raise Unsupported('native int() of a symbolic value')
    def __index__(self):
        c = concrete(self)
        if c is not None:
            return c
        raise Unsupported('native index of a symbolic value')
    def __format__(self, spec):
        raise Unsupported('native format of a symbolic value')
    @property
    def flat(self): return [self]
    def ravel(self): return self
    def any(self): return tobool(self)
    def all(self): return tobool(self)
    @property
    def shape(self): return ()
    @property
    def size(self): return 1


def _numlike(o):
    return liftable(o) or getattr(o, '__vc_arr__', False)


def _bin(op, a, b):
    if getattr(a, '__vc_arr__', False) or getattr(b, '__vc_arr__', False):
        return NotImplemented if getattr(b, '__vc_arr__', False) and not getattr(a, '__vc_arr__', False) else NotImplemented
    if not liftable(a) or not liftable(b):
        if op in ('==',): return False
        if op in ('!=',): return True
        return NotImplemented
    if op in ('/', '//', '%') and not (getattr(lift(a), 'np', False) or getattr(lift(b), 'np', False)):
        d = toint(lift(b))
        if isinstance(d, SInt) or isinstance(d, SReal):
            if eng().branch(_simp(zand(d.t == 0, znot(getattr(d, 'nan', F)), (d.inf == 0) if isinstance(d, SReal) else T))):
                raise ZeroDivisionError('division by zero')
    return ew(op, a, b)


class SInt(SNum):
    __slots__ = ('t', 'np')

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    @property
    def nan(self): return F

    def __repr__(self):
        return f'SInt({self.t})'
    def __and__(self, o): raise Unsupported('bit and')
    def isdigit(self): raise Unsupported('isdigit')
    def bit_length(self): raise Unsupported('bit_length')


class SReal(SNum):
    """Mathematical real with NaN / infinity flags (rounding is not modelled)."""
    __slots__ = ('t', 'nan', 'inf', 'np')

    def __init__(self, t, nan=F, inf=I0, np=False):
        self.t = t
        self.nan = nan
        self.inf = inf
        self.np = np

    @property
    def finite_surely(self):
        return z3.is_false(self.nan) and z3.is_int_value(self.inf) and self.inf.as_long() == 0

    def is_integer(self):
        return SBool(zand(znot(self.nan), self.inf == 0, z3.IsInt(self.t)))

    def __repr__(self):
        return f'SReal({self.t}{"" if self.finite_surely else f"; nan={self.nan}; inf={self.inf}"})'


def real(t, nan=F, inf=I0, np=True):
    return SReal(t, nan, inf, np)


# ------------------------------------------------------- elementwise operations
def _isz(c):
    return z3.is_int_value(c) and c.as_long() == 0


def _fin(*xs):
    return all(x.finite_surely for x in xs)


def ite(c, a, b):
    """elementwise where on scalars"""
    c = zb(c)
    if z3.is_true(c): return lift(a)
    if z3.is_false(c): return lift(b)
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return SBool(_simp(z3.If(c, a.t, b.t)))
    a, b = toint(a), toint(b)
    if isinstance(a, SInt) and isinstance(b, SInt):
        return SInt(a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t), a.np or b.np)
    a, b = toreal(a), toreal(b)
    t = a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t)
    nan = a.nan if a.nan.eq(b.nan) else _simp(z3.If(c, a.nan, b.nan))
    inf = a.inf if a.inf.eq(b.inf) else _simp(z3.If(c, a.inf, b.inf))
    return SReal(t, nan, inf, a.np or b.np)


def _cmp(op, a, b):
    a, b = toint(lift(a)), toint(lift(b))
    if isinstance(a, SInt) and isinstance(b, SInt):
        return SBool(_simp({'<': lambda: a.t < b.t, '<=': lambda: a.t <= b.t, '>': lambda: a.t > b.t,
                            '>=': lambda: a.t >= b.t, '==': lambda: a.t == b.t, '!=': lambda: a.t != b.t}[op]()))
    a, b = toreal(a), toreal(b)
    base = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '>': lambda x, y: x > y,
            '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op]
    r = _simp(base(a.t, b.t))
    if _fin(a, b):
        return SBool(r)
    # order on the extended line: compare (inf, t) lexicographically
    if not (_isz(a.inf) and _isz(b.inf)):
        both = zand(a.inf == 0, b.inf == 0)
        if op in ('==', '!='):
            eq = zand(a.inf == b.inf, zimp(both, a.t == b.t))
            r = eq if op == '==' else znot(eq)
        else:
            r = z3.If(both, r, base(a.inf, b.inf))
    nan = zor(a.nan, b.nan)
    if op == '!=':
        return SBool(_simp(zor(nan, r)))
    return SBool(_simp(zand(znot(nan), r)))


_UF = {}


def uf(name, *sorts):
    k = (name,) + tuple(str(s) for s in sorts)
    if k not in _UF:
        _UF[k] = z3.Function(name, *sorts)
    return _UF[k]


R, Z, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


def ew(op, *args):
    """elementwise (numpy-semantics, total) operation on scalars"""
    if op in ('<', '<=', '>', '>=', '==', '!='):
        return _cmp(op, *args)
    if op == 'and':
        return SBool(zand(*[tobool(a) for a in args]))
    if op == 'or':
        return SBool(zor(*[tobool(a) for a in args]))
    if op == 'not':
        return SBool(znot(tobool(args[0])))
    if op == 'xor':
        return SBool(z3.Xor(tobool(args[0]).t, tobool(args[1]).t))
    if op == 'where':
        return ite(tobool(args[0]), args[1], args[2])
    xs = [toint(lift(a)) for a in args]
    np = any(x.np for x in xs)
    allint = all(isinstance(x, SInt) for x in xs)
    if op in ('+', '-', '*') and allint:
        a, b = xs
        t = {'+': lambda: a.t + b.t, '-': lambda: a.t - b.t, '*': lambda: a.t * b.t}[op]()
        return SInt(_simp(t), np)
    if op == 'neg' and allint:
        return SInt(_simp(-xs[0].t), np)
    if op == 'abs' and allint:
        return SInt(_simp(z3.If(xs[0].t >= 0, xs[0].t, -xs[0].t)), np)
    if op in ('//', '%') and allint:
        a, b = xs
        if z3.is_int_value(b.t):
            bv = b.t.as_long()
            if bv > 0:
                return SInt(_simp(a.t / b.t if op == '//' else a.t % b.t), np)
        # floor division through the positive-divisor encoding
        q = z3.If(b.t > 0, a.t / b.t, (-a.t) / (-b.t))
        return SInt(_simp(q if op == '//' else a.t - q * b.t), np)
    if op in ('min', 'max') and allint:
        a, b = xs
        return SInt(_simp(z3.If((a.t <= b.t) if op == 'min' else (a.t >= b.t), a.t, b.t)), np)
    if op == '**' and allint:
        e = concrete(xs[1])
        if e is not None and 0 <= e <= 8:
            r = z3.IntVal(1)
            for _ in range(e):
                r = r * xs[0].t
            return SInt(_simp(r), np)
        raise Unsupported('integer power')
    xs = [toreal(x) for x in xs]
    if op == 'isnan':
        return SBool(xs[0].nan)
    if op == 'isinf':
        return SBool(zand(znot(xs[0].nan), xs[0].inf != 0))
    if op == 'isfinite':
        return SBool(_simp(zand(znot(xs[0].nan), xs[0].inf == 0)))
    if op == 'neg':
        a, = xs
        return SReal(_simp(-a.t), a.nan, I0 if _isz(a.inf) else _simp(-a.inf), np)
    if op == 'abs':
        a, = xs
        return SReal(_simp(z3.If(a.t >= 0, a.t, -a.t)), a.nan, I0 if _isz(a.inf) else _simp(z3.If(a.inf < 0, -a.inf, a.inf)), np)
    if op in ('+', '-'):
        a, b = xs
        bi = b.inf if op == '+' else (I0 if _isz(b.inf) else -b.inf)
        t = _simp(a.t + b.t if op == '+' else a.t - b.t)
        if _fin(a, b):
            return SReal(t, F, I0, np)
        if _isz(a.inf) and _isz(b.inf):
            return SReal(t, zor(a.nan, b.nan), I0, np)
        nan = zor(a.nan, b.nan, zand(a.inf != 0, bi != 0, a.inf != bi))
        return SReal(t, _simp(nan), _simp(z3.If(a.inf != 0, a.inf, bi)), np)
    if op == '*':
        a, b = xs
        t = _simp(a.t * b.t)
        if _fin(a, b):
            return SReal(t, F, I0, np)
        if _isz(a.inf) and _isz(b.inf):
            return SReal(t, zor(a.nan, b.nan), I0, np)
        az, bz = zand(a.inf == 0, a.t == 0), zand(b.inf == 0, b.t == 0)
        nan = zor(a.nan, b.nan, zand(a.inf != 0, bz), zand(b.inf != 0, az))
        sg = lambda x: z3.If(x.inf != 0, x.inf, z3.If(x.t > 0, z3.IntVal(1), z3.IntVal(-1)))
        inf = z3.If(zor(a.inf != 0, b.inf != 0), z3.If(sg(a) == sg(b), z3.IntVal(1), z3.IntVal(-1)), I0)
        return SReal(t, _simp(nan), _simp(inf), np)
    if op == '/':
        a, b = xs
        bzero = _simp(b.t == 0)
        if z3.is_false(bzero) and _fin(a, b):
            return SReal(_simp(a.t / b.t), F, I0, np)
        if eng() is not None and _fin(a, b) and (b.t.get_id() in eng().state.get('positive', ()) or eng().known(znot(bzero))):
            return SReal(_simp(a.t / b.t), F, I0, np)
        bz = zand(b.inf == 0, bzero)
        az = zand(a.inf == 0, a.t == 0)
        nan = zor(a.nan, b.nan, zand(az, bz), zand(a.inf != 0, b.inf != 0))
        sa = z3.If(a.inf != 0, a.inf, z3.If(a.t >= 0, z3.IntVal(1), z3.IntVal(-1)))
        sb = z3.If(b.t >= 0, z3.IntVal(1), z3.IntVal(-1))    # sign of a zero divisor taken as +0
        inf = z3.If(bz, sa, z3.If(a.inf != 0, z3.If(a.inf == sb, z3.IntVal(1), z3.IntVal(-1)), I0))
        t = z3.If(b.inf != 0, z3.RealVal(0), a.t / b.t) if not _isz(b.inf) else a.t / b.t
        return SReal(_simp(t), _simp(nan), _simp(inf), np)
    if op in ('min', 'max'):
        a, b = xs
        c = _cmp('<=' if op == 'min' else '>=', a, b)
        r = ite(c, a, b)
        nan = zor(a.nan, b.nan)
        return SReal(r.t, _simp(nan), r.inf, np)
    if op in ('//', '%'):
        a, b = xs
        if not _fin(a, b):
            raise Unsupported('float mod with special values')
        q = z3.ToReal(z3.ToInt(a.t / b.t))
        return SReal(_simp(q if op == '//' else a.t - q * b.t), zand(b.t == 0), I0, np)
    if op == '**':
        a, b = xs
        bv = b.t
        if z3.is_rational_value(bv):
            fr = bv.as_fraction()
            if fr.denominator == 1 and 0 <= fr.numerator <= 8:
                r = SReal(z3.RealVal(1), F, I0, np)
                for _ in range(fr.numerator):
                    r = ew('*', r, a)
                return r
            if fr.numerator == 1 and fr.denominator == 2:
                return ew('sqrt', a)
            if fr.denominator == 1 and -8 <= fr.numerator < 0:
                return ew('/', lift(1.0), ew('**', a, lift(-fr.numerator)))
        if not _fin(a, b):
            raise Unsupported('pow with special values')
        return SReal(uf('pow', R, R, R)(a.t, b.t), F, I0, np)
    if op == 'sqrt':
        a, = xs
        f = uf('sqrt', R, R)
        s = f(a.t)
        e = eng()
        if e is not None and not e.state.get('opaque_sqrt'):
            e.axiom(('sqrt', a.t.get_id()), zimp(a.t >= 0, zand(s >= 0, s * s == a.t)))
        if _fin(a) and sumsq(a.t):
            return SReal(s, F, I0, np)
        return SReal(s, _simp(zor(a.nan, zand(a.inf == 0, a.t < 0), a.inf < 0)), a.inf, np)
    if op in ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'exp', 'log', 'radians', 'degrees', 'arctan2', 'sign', 'floor', 'ceil', 'round', 'trunc'):
        return _fn(op, xs, np)
    raise Unsupported(f'elementwise {op}')


PI = uf('pi', R)()


def sumsq(t):
    """is the term a sum of squares by its form?"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD:
        return all(sumsq(c) for c in t.children())
    if k == z3.Z3_OP_POWER:
        return z3.is_rational_value(t.arg(1)) and t.arg(1).as_fraction().denominator == 1 and t.arg(1).as_fraction().numerator % 2 == 0
    if k == z3.Z3_OP_MUL:
        c = t.children()
        while len(c) > 1 and z3.is_rational_value(c[0]) and c[0].as_fraction() >= 0:
            c = c[1:]
        return len(c) % 2 == 0 and all(a.eq(b) for a, b in zip(c[::2], c[1::2])) or len(c) == 1 and sumsq(c[0])
    return z3.is_rational_value(t) and t.as_fraction() >= 0


def _fn(op, xs, np):
    a = xs[0]
    e = eng()
    if op in ('floor', 'trunc', 'ceil', 'round'):
        if op == 'floor':
            t = z3.ToReal(z3.ToInt(a.t))
        elif op == 'ceil':
            t = -z3.ToReal(z3.ToInt(-a.t))
        elif op == 'trunc':
            t = z3.ToReal(z3.If(a.t >= 0, z3.ToInt(a.t), -z3.ToInt(-a.t)))
        else:
            fl = z3.ToInt(a.t)
            d = a.t - z3.ToReal(fl)
            half = z3.Q(1, 2)
            t = z3.ToReal(z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1))))
        return SReal(_simp(t), a.nan, a.inf, np)
    if op == 'sign':
        return SReal(z3.If(a.t > 0, z3.RealVal(1), z3.If(a.t < 0, z3.RealVal(-1), z3.RealVal(0))), a.nan, I0, np)
    if op == 'radians':
        return SReal(_simp(a.t * PI / 180), a.nan, a.inf, np)
    if op == 'degrees':
        return SReal(_simp(a.t * 180 / PI), a.nan, a.inf, np)
    if len(xs) == 2:
        return SReal(uf(op, R, R, R)(xs[0].t, xs[1].t), zor(xs[0].nan, xs[1].nan), I0, np)
    t = uf(op, R, R)(a.t)
    nan = a.nan
    if e is not None:
        if op in ('sin', 'cos'):
            s, c = uf('sin', R, R)(a.t), uf('cos', R, R)(a.t)
            e.axiom(('sc', a.t.get_id()), zand(s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1))
        elif op == 'exp':
            e.axiom(('exp', a.t.get_id()), zand(t > 0, zimp(a.t == 0, t == 1), zimp(a.t <= 0, t <= 1)))
        elif op == 'arccos':
            nan = zor(nan, a.t > 1, a.t < -1)
            e.axiom(('acos', a.t.get_id()), zimp(zand(a.t <= 1, a.t >= -1), zand(t >= 0, t <= PI, uf('cos', R, R)(t) == a.t)))
        elif op == 'arcsin':
            nan = zor(nan, a.t > 1, a.t < -1)
    if op == 'exp' and not _isz(a.inf):
        return SReal(z3.If(a.inf < 0, z3.RealVal(0), t), nan, z3.If(a.inf > 0, z3.IntVal(1), I0), np)
    if not _isz(a.inf):
        nan = zor(nan, a.inf != 0)
    return SReal(t, _simp(nan), I0, np)


# ----------------------------------------------------------------- equality of values (spec side)
def same(a, b):
    """z3 Bool: the two scalar values are the same number (NaN same as NaN)."""
    a, b = lift(a), lift(b)
    if isinstance(a, SBool) and isinstance(b, SBool):
        return _simp(a.t == b.t)
    a, b = toint(a), toint(b)
    if isinstance(a, SInt) and isinstance(b, SInt):
        return _simp(a.t == b.t)
    a, b = toreal(a), toreal(b)
    if _fin(a, b):
        return _simp(a.t == b.t)
    return _simp(zand(a.nan == b.nan, zimp(znot(a.nan), zand(a.inf == b.inf, zimp(a.inf == 0, a.t == b.t)))))


# ----------------------------------------------------------------- Engine
_NLMUL = None


_trig = {}


def trig(f):
    """does f mention sine or cosine?"""
    k = f.get_id()
    hit = _trig.get(k)
    if hit is not None and hit[0].eq(f):
        return hit[1]
    seen, todo, r = set(), [f], False
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            todo.append(x.body())
        elif z3.is_app(x):
            if x.decl().name() in ('sin', 'cos'):
                r = True
                break
            todo.extend(x.children())
    _trig[k] = (f, r)
    return r


def quantified(t):
    """does the formula contain a quantifier"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False


def abstract_products(fs):
    """the formulas with every product of non-constants replaced by an uninterpreted function (with a few facts
    about multiplication): unsatisfiable then implies unsatisfiable before. None when there is no product."""
    global _NLMUL
    if _NLMUL is None:
        _NLMUL = z3.Function('nl*', R, R, R)
    memo, prods = {}, {}

    def num(t):
        return z3.is_rational_value(t) or z3.is_int_value(t) or z3.is_algebraic_value(t)

    def go(root):
        st = [root]
        while st:
            t = st[-1]
            i = t.get_id()
            if i in memo:
                st.pop()
                continue
            if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
                memo[i] = (t, t)
                st.pop()
                continue
            ch = t.children()
            todo = [c for c in ch if c.get_id() not in memo]
            if todo:
                st.extend(todo)
                continue
            nc = [memo[c.get_id()][1] for c in ch]
            if t.decl().kind() == z3.Z3_OP_MUL and t.sort() == R and sum(not num(c) for c in nc) > 1:
                k = [c for c in nc if num(c)]
                v = sorted([c for c in nc if not num(c)], key=lambda c: c.get_id())
                r = v[0]
                for c in v[1:]:
                    m = _NLMUL(r, c)
                    prods[m.get_id()] = (m, r, c)
                    r = m
                for c in k:
                    r = c * r
            elif all(a.eq(b) for a, b in zip(ch, nc)):
                r = t
            else:
                r = t.decl()(*nc)
            memo[i] = (t, r)
            st.pop()
        return memo[root.get_id()][1]
    out = [go(f) for f in fs]
    if not prods:
        return None
    for m, a, b in prods.values():
        out.append(z3.And(m == _NLMUL(b, a), z3.Implies(z3.Or(a == 0, b == 0), m == 0), z3.Implies(a == 1, m == b), z3.Implies(b == 1, m == a),
                          z3.Implies(z3.And(a > 0, b > 0), m > 0), z3.Implies(z3.And(a < 0, b < 0), m > 0), z3.Implies(z3.And(a > 0, b < 0), m < 0), z3.Implies(z3.And(a < 0, b > 0), m < 0)))
    return out


class Obligation:
    __slots__ = ('name', 'status', 'time', 'detail', 'path', 'abstract', 'model', 'backend')

    def __init__(self, name, status, t, detail='', path=0, abstract=False, model=None, backend='z3'):
        self.name, self.status, self.time, self.detail, self.path, self.abstract, self.model, self.backend = \
            name, status, t, detail, path, abstract, model, backend


class Engine:
    def __init__(self, name, timeout_ms=20000, max_paths=4000, budget_s=300):
        self.name = name
        self.timeout_ms = timeout_ms
        self.max_paths = max_paths
        self.obligations = []
        self.paths = 0
        self.restarts = 0
        self.solver_time = 0.0
        self.solver_calls = 0
        self.covers = {}
        self.loop_info = {}        # persistent across paths: site -> dict
        self.used_models = set()
        self.functions = set()
        self.unsupported = []
        self.spec_globals = {}
        self.budget_s = budget_s
        self.inputs = []           # (label, value) registered for counterexample display

    # ---- exploration
    def run(self, harness):
        global ENG
        old, ENG = ENG, self
        t0 = time.time()
        try:
            while True:
                try:
                    self._explore(harness, t0)
                    break
                except Restart:
                    self.restarts += 1
                    if self.restarts > 60:
                        self.unsupported.append('too many restarts')
                        break
                    self.obligations = []
                    self.covers = {k: v for k, v in self.covers.items()}
                    self.paths = 0
                    self.functions = set()
        finally:
            ENG = old
        self.wall = time.time() - t0
        return self

    def _explore(self, harness, t0):
        stack = [[]]
        while stack:
            if self.paths >= self.max_paths or time.time() - t0 > self.budget_s:
                self.unsupported.append(f'path/time budget exhausted ({self.paths} paths)')
                return
            prefix = stack.pop()
            self._begin(prefix)
            try:
                harness(self)
            except PathEnd:
                pass
            except Unsupported as u:
                self.unsupported.append(str(u))
                if len(self.unsupported) > 3:
                    return
            self.paths += 1
            for alt in self.alternatives:
                stack.append(alt)

    def _begin(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.alternatives = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.timeout_ms)
        self.solver.set('mbqi', False)     # refutation by instantiation only; models of quantified facts are searched in _fallback
        self.pc = []
        self.counter = 0
        self.axioms_seen = {}
        self.known_cache = {}
        self.abstract = False
        self.state = {}
        self.mutlog = []
        self.births = {}
        self.clock = 0
        self.inputs = []
        self.keep = []      # keeps z3 terms alive so ids stay unique

    # ---- naming
    def fresh(self, sort, name='v'):
        self.counter += 1
        return z3.Const(f'{name}!{self.counter}', sort)

    def fresh_fn(self, name, *sorts):
        self.counter += 1
        return z3.Function(f'{name}!{self.counter}', *sorts)

    # ---- solver
    def _check(self, *extra):
        t = time.time()
        self.solver_calls += 1
        r = self.solver.check(*extra)
        self.solver_time += time.time() - t
        return r

    def assume(self, c):
        c = zb(c) if not isinstance(c, z3.BoolRef) else c
        if z3.is_true(c):
            return
        self.pc.append(c)
        self.solver.add(c)
        if self.known_cache:
            self.known_cache = {k: v for k, v in self.known_cache.items() if v is True}

    def assume_checked(self, c):
        self.assume(c)
        if self._check() == z3.unsat:
            raise PathEnd()

    def axiom(self, key, c):
        if key in self.axioms_seen:
            return
        self.axioms_seen[key] = c
        self.keep.append(c)
        self.assume(c)

    def known(self, c):
        """is c entailed by the path condition? (quick, sound: False when unsure)"""
        c = zb(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        k = c.get_id()
        if k in self.known_cache:
            return self.known_cache[k]
        self.keep.append(c)
        self.solver.set('timeout', 1500)
        r = self._check(znot(c)) == z3.unsat
        self.solver.set('timeout', self.timeout_ms)
        self.known_cache[k] = r
        return r

    def feasible(self, c):
        self.solver.set('timeout', 700)
        r = self._check(c) != z3.unsat
        self.solver.set('timeout', self.timeout_ms)
        return r

    def branch(self, c):
        c = _simp(zb(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            ft = self.feasible(c)
            ff = self.feasible(z3.Not(c)) if ft else True
            if ft and ff:
                d = True
                self.alternatives.append(self.decisions + [False])
            else:
                d = ft
        self.decisions.append(d)
        if self.nested is not None:
            self.nested.append(len(self.pc))
        self.assume(c if d else z3.Not(c))
        return d

    nested = None

    def summarize(self, fn, hyp=None):
        """every outcome of fn() under the path condition (and hyp): list of (condition, value, exception)"""
        if self.nested is not None:
            raise Unsupported('nested summary')
        old = self.__dict__.pop('branch', None)
        saved = self.prefix, self.decisions, self.alternatives
        out, todo = [], [[]]
        try:
            while todo:
                if len(out) > 200:
                    raise Unsupported('too many outcomes')
                self.prefix, self.decisions, self.alternatives = todo.pop(), [], []
                self.nested = []
                base, seen = len(self.pc), set(self.axioms_seen)
                cache = dict(self.known_cache)
                self.solver.push()
                v, ex, alive = None, None, True
                try:
                    if hyp is not None:
                        self.nested.append(len(self.pc))
                        self.assume(hyp)
                        if len(self.pc) == base:
                            self.nested.pop()
                    try:
                        v = fn()
                    except PathEnd:
                        raise Unsupported('end of path inside a summary')
                    except Exception as x:
                        ex = x
                finally:
                    new, dec = self.pc[base:], set(self.nested)
                    del self.pc[base:]
                    self.solver.pop()
                    self.known_cache = cache
                    todo.extend(self.alternatives)
                    self.nested = None
                fresh = {self.axioms_seen[k].get_id() for k in self.axioms_seen if k not in seen}
                cond = []
                for k, c in enumerate(new):
                    if base + k in dec:
                        cond.append(c)
                    else:
                        self.assume(c if c.get_id() in fresh else zimp(zand(*cond), c))
                if hyp is not None and cond and cond[0] is hyp:
                    cond = cond[1:]
                out.append((zand(*cond), v, ex))
        finally:
            self.nested = None
            self.prefix, self.decisions, self.alternatives = saved
            if old is not None:
                self.branch = old
        return out

    def choose(self, n, what=''):
        """nondeterministic choice 0..n-1 (all explored)"""
        if self.nested is not None:
            raise Unsupported('choice inside a summary')
        for k in range(n - 1):
            i = len(self.decisions)
            if i < len(self.prefix):
                d = self.prefix[i]
            else:
                d = True
                self.alternatives.append(self.decisions + [False])
            self.decisions.append(d)
            if d:
                return k
        return n - 1

    # ---- obligations
    def prove(self, name, goal, detail=''):
        goal = _simp(zb(goal))
        t = time.time()
        if z3.is_true(goal):
            self.obligations.append(Obligation(name, 'discharged', 0.0, path=self.paths, backend='simplifier'))
            return True
        few = len([o for o in self.obligations if o.status != 'discharged']) >= 2
        if few:
            self.solver.set('timeout', 3000)
        r, backend = z3.unknown, 'z3'
        plain = self._untrig(goal)
        ab = abstract_products((list(self.pc) if plain is None else plain) + [z3.Not(goal)])
        if ab is None and plain is not None:
            ab = plain + [z3.Not(goal)]
        if ab is not None:
            s = z3.Solver()
            s.set('timeout', 4000)
            s.add(*ab)
            r = s.check()
            self.solver_calls += 1
            self.solver_time += time.time() - t
            r = z3.unsat if r == z3.unsat else z3.unknown
            backend = 'z3(products abstracted)'
            if r != z3.unsat:
                # the quantifier-free facts alone often do
                ground = [c for c in self.pc if not quantified(c)]
                if len(ground) < len(self.pc):
                    s = z3.Solver()
                    s.set('timeout', 2500)
                    s.add(*ground)
                    s.add(z3.Not(goal))
                    r = s.check()
                    self.solver_calls += 1
                    r = z3.unsat if r == z3.unsat else z3.unknown
                    backend = 'z3(ground)'
        if r != z3.unsat:
            r = self._check(z3.Not(goal))
            backend = 'z3'
        if r == z3.unknown and not few:
            r, backend = self._fallback(goal, r)
        self.solver.set('timeout', self.timeout_ms)
        dt = time.time() - t
        if r == z3.unsat:
            self.obligations.append(Obligation(name, 'discharged', dt, path=self.paths, backend=backend))
            return True
        model = None
        if r == z3.sat:
            try:
                model = self.solver.model()
                mtxt = self._model_text(model)
            except z3.Z3Exception:
                mtxt = ''
            self.obligations.append(Obligation(name, 'refuted', dt, detail + mtxt, self.paths, self.abstract, None))
        else:
            self.obligations.append(Obligation(name, 'unknown', dt, detail + self.solver.reason_unknown(), self.paths, self.abstract))
        return False

    def _untrig(self, goal):
        """the path condition without the facts about sine and cosine, when there are such facts and the goal is not about them"""
        if trig(goal):
            return None
        r = [c for c in self.pc if not trig(c)]
        return r if len(r) < len(self.pc) else None

    def _fallback(self, goal, r):
        # second opinion: fresh non-incremental solver (different tactics), then cvc5
        t = time.time()
        for mk in (lambda: z3.Solver(), lambda: z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt').solver(),
                   lambda: z3.Tactic('qfnra-nlsat').solver()):
            try:
                s = mk()
                s.set('timeout', self.timeout_ms // 3)
                s.add(*self.pc)
                s.add(z3.Not(goal))
                r2 = s.check()
                if r2 == z3.unsat:
                    self.solver_time += time.time() - t
                    return r2, 'z3(fresh)'
            except z3.Z3Exception:
                pass
        try:
            from .cvc import cvc5_check
            s = z3.Solver()
            s.add(*self.pc)
            s.add(z3.Not(goal))
            if cvc5_check(s.sexpr(), self.timeout_ms // 2) == 'unsat':
                self.solver_time += time.time() - t
                return z3.unsat, 'cvc5'
        except Exception:
            pass
        self.solver_time += time.time() - t
        return r, 'z3'

    def _model_text(self, model):
        out = []
        for label, term in self.inputs:
            try:
                out.append(f'{label}={model.eval(term, model_completion=True)}')
            except Exception:
                pass
        if not out:
            out = [f'{d}={model[d]}' for d in model.decls()[:40] if d.arity() == 0]
        return ' counterexample: ' + ', '.join(out)[:1500]

    def reduced(self, goal, groups=()):
        """equivalent goal under the path condition: equal terms of each (lhs, rhs) group unified, decided If conditions resolved"""
        subs = []
        for ls, rs in groups:
            for a in ls:
                for b in rs:
                    if not a.eq(b) and self.known(a == b):
                        subs.append((a, b))
                        break
        if subs:
            goal = z3.substitute(goal, *subs)
        for _ in range(6):
            conds = {}
            seen = set()
            todo = [goal]
            while todo:
                x = todo.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app_of(x, z3.Z3_OP_ITE):
                    conds[x.arg(0).get_id()] = x.arg(0)
                todo.extend(x.children())
            sb = []
            for c in list(conds.values())[:40]:
                if is_const(c):
                    continue
                self.keep.append(c)
                if self.known(c):
                    sb.append((c, T))
                elif self.known(znot(c)):
                    sb.append((c, F))
            if not sb:
                break
            goal = _simp(z3.substitute(goal, *sb))
            self.keep.append(goal)
        return goal

    def fail(self, name, detail=''):
        """reached a point that the contract forbids"""
        self.prove(name, F, detail)

    def cover(self, name):
        """reachability of a point (vacuity guard): must be satisfiable on some path"""
        if self.covers.get(name):
            return
        self.covers[name] = self._check() != z3.unsat

    def note_fn(self, name):
        self.functions.add(name)

    # ---- summary
    def summary(self):
        by = {}
        for o in self.obligations:
            d = by.setdefault(o.name, {'n': 0, 'discharged': 0, 'refuted': 0, 'unknown': 0, 'time': 0.0, 'detail': '', 'abstract': True, 'backends': set()})
            d['n'] += 1
            d[o.status] += 1
            d['time'] += o.time
            d['backends'].add(o.backend)
            if o.status != 'discharged':
                if not d['detail']:
                    d['detail'] = o.detail
                d['abstract'] = d['abstract'] and o.abstract
        return by
