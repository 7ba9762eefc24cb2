"""Symbolic strings over the z3 sequence theory."""
import z3
from . import core
from .core import Sym, SInt, SReal, SBool, Unsupported, eng, zb, zand, zor, znot, _simp, concrete, F


class SStr:
    __vc_sym__ = True
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    @staticmethod
    def of(x):
        if isinstance(x, SStr):
            return x
        if isinstance(x, str):
            return SStr(z3.StringVal(x))
        raise Unsupported(f'not a string {x!r}')

    def _r(self, t):
        t = _simp(t)
        if z3.is_string_value(t):
            return t.as_string()
        return SStr(t)

    def __add__(self, o):
        if not isinstance(o, (str, SStr)):
            raise TypeError('can only concatenate str')
        return self._r(z3.Concat(self.t, SStr.of(o).t))

    def __radd__(self, o):
        return self._r(z3.Concat(SStr.of(o).t, self.t))

    def __eq__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(_simp(self.t == SStr.of(o).t))
        if getattr(o, '__vc_label__', False):
            return o == self
        return False

    def __ne__(self, o):
        if isinstance(o, (str, SStr)):
            return SBool(_simp(self.t != SStr.of(o).t))
        if getattr(o, '__vc_label__', False):
            return o != self
        return True
    __hash__ = object.__hash__

    def length(self):
        from .containers import sint
        p = known_parts(self.t)
        if p is not None:
            return sum(n for _, n in p)
        return sint(z3.Length(self.t))

    def __bool__(self):
        return eng().branch(z3.Length(self.t) > 0)

    def startswith(self, p):
        if isinstance(p, tuple):
            return SBool(zor(*[zb(self.startswith(x)) for x in p]))
        r = _text('startswith', self, p)
        return SBool(_simp(z3.PrefixOf(SStr.of(p).t, self.t))) if r is None else r

    def endswith(self, p):
        if isinstance(p, tuple):
            return SBool(zor(*[zb(self.endswith(x)) for x in p]))
        r = _text('endswith', self, p)
        return SBool(_simp(z3.SuffixOf(SStr.of(p).t, self.t))) if r is None else r

    def contains(self, x):
        r = _text('contains', self, x)
        return SBool(_simp(z3.Contains(self.t, SStr.of(x).t))) if r is None else r

    def __contains__(self, x):
        return bool(self.contains(x))

    def upper(self):
        return SStr(core.uf('upper', z3.StringSort(), z3.StringSort())(self.t))

    def lower(self):
        return SStr(core.uf('lower', z3.StringSort(), z3.StringSort())(self.t))

    def strip(self, *a):
        if _text('items', self) is not None:
            return _text('strip', self, *a)
        if a:
            raise Unsupported('strip chars')
        return SStr(core.uf('strip', z3.StringSort(), z3.StringSort())(self.t))

    def lstrip(self, *a):
        from .models import text
        return text.strip(self, *a, right=False)

    def rstrip(self, *a):
        from .models import text
        return text.strip(self, *a, left=False)

    def split(self, *a, **k):
        from .models import text
        return text.split(self, *a, **k)

    def partition(self, sep):
        from .models import text
        return text.partition(self, sep)

    def replace(self, a, b, *n):
        if n:
            raise Unsupported('replace with a count')
        from .models import text
        return text.replace(self, a, b)

    def isdigit(self):
        k = self.t.decl().kind()
        if k == z3.Z3_OP_INT_TO_STR:
            return SBool(self.t.arg(0) >= 0)
        if k == z3.Z3_OP_ITE:
            return SBool(zor(zand(self.t.arg(0), zb(SStr(self.t.arg(1)).isdigit())), zand(znot(self.t.arg(0)), zb(SStr(self.t.arg(2)).isdigit()))))
        if k == z3.Z3_OP_SEQ_CONCAT and any(z3.is_string_value(c) and not c.as_string().isdigit() and c.as_string() for c in self.t.children()):
            return SBool(F)
        return SBool(zand(z3.Length(self.t) > 0, z3.InRe(self.t, z3.Plus(z3.Range('0', '9')))))

    def zfill(self, n):
        from .containers import iterm
        n = iterm(n)
        pad = z3.Int('x')
        raise Unsupported('zfill')

    def encode(self, *a):
        return self

    def as_posix(self):
        return self

    def to_int(self):
        if eng().branch(znot(zb(self.isdigit()))):
            raise ValueError('invalid literal for int()')
        if self.t.decl().kind() == z3.Z3_OP_INT_TO_STR:
            return SInt(self.t.arg(0))
        if self.t.decl().kind() == z3.Z3_OP_ITE:
            return SStr(self.t.arg(1 if eng().branch(self.t.arg(0)) else 2)).to_int()
        return SInt(z3.StrToInt(self.t))

    def to_float(self):
        f = core.uf('parsefloat', z3.StringSort(), core.R)
        return SReal(f(self.t))

    def __getitem__(self, i):
        from .containers import iterm
        L = z3.Length(self.t)
        if isinstance(i, slice):
            if i.step is not None:
                raise Unsupported('string step')
            p = known_parts(self.t)
            if p is not None:
                n = sum(k for _, k in p)
                a, b = slice(cint(i.start), cint(i.stop)).indices(n)[:2]
                return cut(p, a, b)

            def norm(x, d):
                if x is None:
                    return d
                t = iterm(x)
                c = concrete(SInt(t))
                if c is not None and c >= 0:
                    return z3.If(t > L, L, t)
                t = z3.If(t < 0, t + L, t)
                return z3.If(t < 0, z3.IntVal(0), z3.If(t > L, L, t))
            a, b = norm(i.start, z3.IntVal(0)), norm(i.stop, L)
            return self._r(z3.SubString(self.t, a, z3.If(b > a, b - a, z3.IntVal(0))))
        t = iterm(i)
        if eng().branch(zor(t >= L, t < -L)):
            raise IndexError('string index out of range')
        t = z3.If(t < 0, t + L, t)
        return self._r(z3.SubString(self.t, t, z3.IntVal(1)))

    def __iter__(self):
        raise Unsupported('iteration over a symbolic string')

    def __repr__(self):
        return f'SStr({self.t})'


def _text(name, *a):
    if 'atoms' not in eng().state:
        return None
    from .models import text
    return getattr(text, name)(*a)


def cint(x):
    if x is None:
        return None
    c = x if isinstance(x, int) else concrete(x)
    if c is None:
        raise Unsupported('symbolic slice bound')
    return int(c)


def known_parts(t):
    '''[(constant or term, length)] when every part of the concatenation has a known length (state['strlen'])'''
    kl = eng().state.get('strlen')
    t = _simp(t)
    if z3.is_string_value(t):
        return [(t.as_string(), len(t.as_string()))]
    if kl is None:
        return None
    for x, n in kl:
        if x.eq(t):
            return [(t, n)]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            p = known_parts(c)
            if p is None:
                return None
            out += p
        return out
    return None


def cut(p, a, b):
    '''characters a..b of a concatenation of parts with known lengths'''
    out, pos = '', 0
    for x, n in p:
        lo, hi = max(a, pos) - pos, min(b, pos + n) - pos
        pos += n
        if lo >= hi:
            continue
        if isinstance(x, str):
            s = x[lo:hi]
        elif lo == 0 and hi == n:
            s = SStr(x)
        else:
            sub = z3.SubString(x, z3.IntVal(lo), z3.IntVal(hi - lo))
            eng().state['strlen'].append((_simp(sub), hi - lo))
            eng().keep.append(sub)
            s = SStr(_simp(sub))
        out = s if isinstance(out, str) and out == '' else SStr.of(out) + s if isinstance(out, SStr) or isinstance(s, SStr) else out + s
    return out


def tostr(x, spec='', conv=-1):
    """string of a value: python str or SStr"""
    if isinstance(x, SStr):
        if spec:
            raise Unsupported('format spec on a symbolic string')
        return x
    if isinstance(x, str):
        return format(x, spec)
    if isinstance(x, SInt):
        c = concrete(x)
        if c is not None:
            return format(c, spec)
        if spec in ('', 'd'):
            hook = eng().state.get('int_str')
            h = hook(x.t) if hook else None
            if h is not None:
                return SStr(h)
            if eng().known(x.t >= 0):
                return SStr(z3.IntToStr(x.t))
            return SStr(z3.If(x.t >= 0, z3.IntToStr(x.t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-x.t))))
        return SStr(core.uf('fmtint_' + spec, core.Z, z3.StringSort())(x.t))
    if isinstance(x, SReal):
        return SStr(core.uf('fmtreal_' + spec, core.R, z3.StringSort())(x.t))
    if isinstance(x, SBool):
        return SStr(z3.If(x.t, z3.StringVal('True'), z3.StringVal('False')))
    if getattr(x, '__vc_arr__', False) or getattr(x, '__vc_sym__', False) or getattr(x, '__vc_dict__', False):
        return f'<{type(x).__name__}>'      # only used in messages
    if conv == 114:
        return repr(x)
    try:
        return format(x, spec) if spec else _str(x)
    except Unsupported:
        return f'<{type(x).__name__}>'


def _str(x):
    if isinstance(x, (list, tuple)):
        return f'<{type(x).__name__}>' if any(not isinstance(y, (str, int, float, bool, type(None))) for y in x) else str(x)
    if type(x).__module__.startswith('pyg2p') and '__str__' not in type(x).__dict__:
        r = getattr(type(x), '__repr__', None)
        if r is not None and r is not object.__repr__:
            return f'<{type(x).__name__}>'
    r = type(x).__str__(x) if not isinstance(x, type) else str(x)
    return r


def fstr(*parts):
    out = ''
    for p in parts:
        if isinstance(p, str):
            s = p
        elif isinstance(p, SStr):
            s = p
        else:
            v, conv, spec = p
            if isinstance(spec, SStr):
                raise Unsupported('symbolic format spec')
            s = tostr(v, spec, conv)
        if isinstance(s, SStr) or isinstance(out, SStr):
            out = SStr.of(out) + s
        else:
            out = out + s
    return out


def sformat(fmt, args, kw):
    import string
    if not any(_symany(a) for a in list(args) + list(kw.values())):
        return fmt.format(*args, **kw)
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            v = args[auto]
            auto += 1
        elif field.isdigit():
            v = args[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported(f'format field {field}')
        parts.append((v, ord(conv) if conv else -1, spec or ''))
    return fstr(*parts)


def _symany(a):
    return isinstance(a, Sym) or getattr(a, '__vc_sym__', False) or getattr(a, '__vc_arr__', False) or getattr(a, '__vc_dict__', False) \
        or isinstance(a, (list, tuple)) or type(a).__module__.startswith('pyg2p')


def strfmt_percent(fmt, b):
    import re
    t = list(b) if isinstance(b, tuple) else [b]
    parts, pos, i = [], 0, 0
    for m in re.finditer(r'%([-+ 0#]*\d*(?:\.\d+)?)([sdifrg%])', fmt):
        if m.start() > pos:
            parts.append(fmt[pos:m.start()])
        pos = m.end()
        if m.group(2) == '%':
            parts.append('%')
            continue
        v = t[i]
        i += 1
        flags, ty = m.group(1), m.group(2)
        if ty in 'di' and not flags:
            parts.append((v, -1, ''))
        elif ty == 's' and not flags:
            parts.append((v, -1, ''))
        elif ty in 'di':
            parts.append((v, -1, flags + 'd'))
        else:
            parts.append((v, -1, (flags + ty) if ty != 'r' else ''))
    if pos < len(fmt):
        parts.append(fmt[pos:])
    return fstr(*parts)
