"""Texts made of constants and atoms: contracts of str, re and csv.

An atom is an arbitrary non-empty text about which the harness declares which characters it does not contain
(excl), which it does contain (has), and which do not stand at its beginning (first) or end (last); edges: both.  Operations whose result
would depend on anything else are Unsupported (the obligation stays undecided); nothing is guessed.
"""
import re as _re
try:
    import re._parser as _sp
    import re._constants as _sc
except ImportError:     # pragma: no cover
    import sre_parse as _sp
    import sre_constants as _sc
import z3
from .. import core
from ..core import Unsupported, eng, SBool, zb, zor, zand, znot, T, F, _simp
from ..syms import SStr
from ..runtime import ModelModule
from ..containers import VList

WS = ' \t\n\r\x0b\x0c'
S = z3.StringSort()


class Atom:
    def __init__(self, t, excl, has, first, last, of=None, regex=None):
        self.t, self.excl, self.has, self.of, self.regex = t, frozenset(excl), frozenset(has), of, regex
        self.first, self.last = frozenset(excl) | frozenset(first), frozenset(excl) | frozenset(last)


def atom(e, name, excl='', has='', edges='', first='', last='', regex=None):
    """arbitrary non-empty text; regex: z3 regular expression it belongs to (only given to the solver where it is needed)"""
    t = e.fresh(S, name)
    e.assume(z3.Length(t) > 0)
    return define(t, excl, has, edges, first, last, regex=regex)


def define(t, excl='', has='', edges='', first='', last='', of=None, regex=None):
    e = eng()
    t = _simp(t)
    e.state.setdefault('atoms', {})[t.get_id()] = Atom(t, excl, has, set(edges) | set(first), set(edges) | set(last), of, regex)
    e.keep.append(t)
    return SStr(t)


def get(t):
    return eng().state.get('atoms', {}).get(_simp(t).get_id())


def items(x):
    """list of characters and atoms; None when it contains something that was not declared"""
    if isinstance(x, str):
        return list(x)
    t = _simp(x.t if isinstance(x, SStr) else x)
    if z3.is_string_value(t):
        return list(t.as_string())
    a = get(t)
    if a is not None:
        return [a]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for c in t.children():
            i = items(c)
            if i is None:
                return None
            out += i
        return out
    return None


def need(x):
    i = items(x)
    if i is None:
        raise Unsupported(f'text of unknown structure {x}')
    return i


def text(its):
    """value of a list of characters and atoms"""
    out = []
    for c in its:
        if isinstance(c, str):
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c.t)
    if not out:
        return ''
    if len(out) == 1:
        return out[0] if isinstance(out[0], str) else SStr(out[0])
    return SStr(_simp(z3.Concat(*[z3.StringVal(x) if isinstance(x, str) else x for x in out])))


def without(a, chars):
    """the atom contains none of the characters; Unsupported when that is open"""
    if set(chars) <= a.excl:
        return True
    if a.has & set(chars):
        return False
    raise Unsupported(f'{a.t} may contain one of {chars!r}')


def strip(x, chars=None, left=True, right=True):
    cs = set(WS if chars is None else chars)
    i = need(x)

    def edge(a, which):
        if not cs <= which:
            raise Unsupported(f'{a.t} may begin or end with one of {cs}')
    if left:
        while i and isinstance(i[0], str) and i[0] in cs:
            i = i[1:]
        if i and not isinstance(i[0], str):
            edge(i[0], i[0].first)
    if right:
        while i and isinstance(i[-1], str) and i[-1] in cs:
            i = i[:-1]
        if i and not isinstance(i[-1], str):
            edge(i[-1], i[-1].last)
    return text(i)


def find(i, sub, start=0):
    """position in the item list of a constant text, None when it does not occur"""
    for a in i[start:]:
        if not isinstance(a, str):
            # an occurrence that touches the atom would use one of its characters
            if len(sub) == 1 and not set(sub) <= a.excl and a.has & set(sub):
                raise Unsupported('position inside an atom')
            if not set(sub) <= a.excl:
                raise Unsupported(f'{a.t} may contain part of {sub!r}')
    n = len(sub)
    for k in range(start, len(i) - n + 1):
        if all(isinstance(c, str) for c in i[k:k + n]) and ''.join(i[k:k + n]) == sub:
            return k
    return None


def contains(x, sub):
    if isinstance(sub, SStr):
        return None
    i = items(x)
    if i is None:
        return None
    if any(not isinstance(a, str) and len(sub) == 1 and sub in a.has for a in i):
        return True
    runs = ''.join(a if isinstance(a, str) else '\0' for a in i)
    if sub in runs:
        return True
    if all(isinstance(a, str) or set(sub) <= a.excl for a in i):
        return False
    return None


def startswith(x, p):
    if isinstance(p, SStr):
        return None
    i = items(x)
    if i is None:
        return None
    for k, c in enumerate(p):
        if k >= len(i):
            return False
        if isinstance(i[k], str):
            if i[k] != c:
                return False
        elif c in i[k].first:
            return False
        else:
            return None
    return True


def endswith(x, p):
    if isinstance(p, SStr):
        return None
    i = items(x)
    if i is None:
        return None
    for k, c in enumerate(reversed(p)):
        if k >= len(i):
            return False
        a = i[-1 - k]
        if isinstance(a, str):
            if a != c:
                return False
        elif c in a.last:
            return False
        else:
            return None
    return True


def split(x, sep=None, maxsplit=-1):
    if isinstance(sep, SStr):
        raise Unsupported('symbolic separator')
    i = need(x)
    out = []
    if sep is None:
        for a in i:
            if not isinstance(a, str) and not set(WS) <= a.excl:
                raise Unsupported('blanks inside an atom')
        cur = []
        if maxsplit != -1:
            raise Unsupported('split with a limit on blanks')
        for a in i:
            if isinstance(a, str) and a in WS:
                if cur:
                    out.append(text(cur))
                cur = []
            else:
                cur.append(a)
        if cur:
            out.append(text(cur))
        return VList(out)
    # atoms behind the last split are left alone
    pos, n = 0, 0
    while maxsplit < 0 or n < maxsplit:
        k = None
        for j in range(pos, len(i)):
            a = i[j]
            if not isinstance(a, str):
                if not set(sep) <= a.excl:
                    raise Unsupported(f'{a.t} may contain the separator')
            elif all(isinstance(c, str) for c in i[j:j + len(sep)]) and ''.join(i[j:j + len(sep)]) == sep:
                k = j
                break
        if k is None:
            break
        out.append(text(i[pos:k]))
        pos, n = k + len(sep), n + 1
    out.append(text(i[pos:]))
    return VList(out)


def partition(x, sep):
    p = list(split(x, sep, 1))
    return (p[0], sep, p[1]) if len(p) == 2 else (p[0], '', '')


def replace(x, old, new):
    if isinstance(old, SStr):
        return _replace_sym(x, old, new)
    i = need(x)
    out, k = [], 0
    while k < len(i):
        a = i[k]
        if not isinstance(a, str):
            if set(old) <= a.excl:
                out.append(a)
            elif len(old) == 1 and old in a.has and isinstance(new, str):
                f = core.uf(f'replace_{old}_{new}', S, S)(a.t)
                if get(f) is None:
                    define(f, excl=a.excl, has=a.has | set(new), first=a.first - set(new), last=a.last - set(new), of=(a, old, new))
                out.append(get(f))
            elif len(old) > 1 and any(c in a.excl for c in old) and old[0] in a.excl and old[-1] in a.excl:
                out.append(a)       # an occurrence can neither begin, nor end in the atom
            else:
                raise Unsupported(f'{a.t} may contain part of {old!r}')
            k += 1
        elif all(isinstance(c, str) for c in i[k:k + len(old)]) and ''.join(i[k:k + len(old)]) == old:
            out += need(new)
            k += len(old)
        else:
            out.append(a)
            k += 1
    return text(out)


def _replace_sym(x, old, new):
    """old = c + atom + d with characters c, d that are in no atom of x (e.g. {NAME})"""
    o = need(old)
    if len(o) != 3 or not isinstance(o[0], str) or isinstance(o[1], str) or not isinstance(o[2], str) or not {o[0], o[2]} <= o[1].excl:
        raise Unsupported('replacing a symbolic text')
    i = need(x)
    out, k = [], 0
    while k < len(i):
        a = i[k]
        if not isinstance(a, str) and not {o[0], o[2]} <= a.excl:
            raise Unsupported(f'{a.t} may contain part of the text to replace')
        if a == o[0] and isinstance(a, str):
            j = k + 1
            while j < len(i) and i[j] not in (o[0], o[2]):
                j += 1
            if j < len(i) and i[j] == o[2] and j > k + 1:
                mid = text(i[k + 1:j])
                if eng().branch(zb(SStr.of(mid).t == o[1].t)):
                    out += need(new)
                    k = j + 1
                    continue
        out.append(a)
        k += 1
    return text(out)


# ------------------------------------------------------------------ regular expressions
def inset(av):
    """predicate of a parsed character set"""
    def one(op, a):
        if op is _sc.LITERAL:
            return {chr(a)}
        if op is _sc.RANGE:
            return {chr(c) for c in range(a[0], a[1] + 1)}
        if op is _sc.CATEGORY:
            cat = {_sc.CATEGORY_SPACE: WS, _sc.CATEGORY_DIGIT: '0123456789', _sc.CATEGORY_WORD: '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz_'}.get(a)
            if cat is None:
                raise Unsupported(f'category {a}')
            return set(cat)
        raise Unsupported(f'character set {op}')
    if av and av[0][0] is _sc.NEGATE:
        return False, set().union(*[one(o, a) for o, a in av[1:]])
    return True, set().union(*[one(o, a) for o, a in av])


def z3set(pos, cs):
    u = [z3.Re(c) for c in sorted(cs)]
    r = z3.Union(*u) if len(u) > 1 else u[0] if u else z3.Empty(z3.ReSort(S))
    return r if pos else z3.Intersect(z3.AllChar(z3.ReSort(S)), z3.Complement(r))


def z3re(p):
    """z3 regular expression of a parsed pattern without anchors"""
    out = []
    for op, av in p:
        if op is _sc.LITERAL:
            out.append(z3.Re(chr(av)))
        elif op is _sc.NOT_LITERAL:
            out.append(z3set(False, {chr(av)}))
        elif op is _sc.IN:
            out.append(z3set(*inset(av)))
        elif op is _sc.ANY:
            out.append(z3set(False, {'\n'}))
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            lo, hi, q = av
            r = z3re(q)
            if hi == _sc.MAXREPEAT:
                out.append(z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(z3.Loop(r, lo, lo), z3.Star(r)))
            else:
                out.append(z3.Loop(r, lo, hi))
        elif op is _sc.SUBPATTERN:
            out.append(z3re(av[-1]))
        elif op is _sc.BRANCH:
            out.append(z3.Union(*[z3re(b) for b in av[1]]))
        else:
            raise Unsupported(f'regular expression {op}')
    return z3.Re('') if not out else out[0] if len(out) == 1 else z3.Concat(*out)


def alternatives(p):
    """sequences without a branch at their end"""
    p = list(p)
    if p and p[-1][0] is _sc.BRANCH:
        return [r for b in p[-1][1][1] for r in alternatives(p[:-1] + list(b))]
    if p and p[-1][0] is _sc.SUBPATTERN:
        return alternatives(p[:-1] + list(p[-1][1][-1]))
    return [p]


def regex(p):
    return z3re(list(_sp.parse(p)))


def chars_of(p):
    """characters a text matching the parsed pattern can contain (None: any)"""
    out = set()
    for op, av in p:
        if op is _sc.LITERAL:
            out.add(chr(av))
        elif op is _sc.IN:
            pos, cs = inset(av)
            if not pos:
                return None
            out |= cs
        elif op in (_sc.MAX_REPEAT, _sc.MIN_REPEAT):
            q = chars_of(av[2])
            if q is None:
                return None
            out |= q
        elif op is _sc.SUBPATTERN:
            q = chars_of(av[-1])
            if q is None:
                return None
            out |= q
        elif op is _sc.BRANCH:
            for b in av[1]:
                q = chars_of(b)
                if q is None:
                    return None
                out |= q
        else:
            return None
    return out


_INCL = {}


def inclusion(a, b):
    """True: every word of a is one of b; False: none is; None: neither"""
    k = (a.sexpr(), b.sexpr())
    if k[0] == k[1]:
        return True
    if z3.Complement(b).sexpr() == k[0]:
        return False
    if k not in _INCL:
        x = z3.String('x')

        def none(*c):
            s = z3.Solver()
            s.set('timeout', 10000)
            s.add(*c)
            return s.check() == z3.unsat
        _INCL[k] = True if none(z3.InRe(x, a), znot(z3.InRe(x, b))) else False if none(z3.InRe(x, a), z3.InRe(x, b)) else None
    return _INCL[k]


class Match:
    def __init__(self, whole, groups, names):
        self.whole, self.gs, self.names = whole, groups, names

    def group(self, *ks):
        r = tuple(self.whole if k == 0 else self.gs[(self.names[k] if isinstance(k, str) else k) - 1] for k in (ks or (0,)))
        return r[0] if len(r) == 1 else r

    def __getitem__(self, k):
        return self.group(k)

    def groups(self, default=None):
        return tuple(self.gs)

    def groupdict(self, default=None):
        return {n: self.gs[k - 1] for n, k in self.names.items()}

    def __bool__(self):
        return True


class Pattern:
    def __init__(self, pattern, flags=0):
        if not isinstance(pattern, str):
            raise Unsupported('symbolic pattern')
        self.pattern = pattern
        self.native = _re.compile(pattern, flags)
        self.flags = flags
        self.parsed = _sp.parse(pattern, flags)
        self.names = dict(self.native.groupindex)

    # -- shapes
    def brace(self):
        """(c, body, d, group number or None) for patterns c body d whose body contains neither c nor d"""
        p = list(self.parsed)
        if len(p) < 3 or p[0][0] is not _sc.LITERAL or p[-1][0] is not _sc.LITERAL:
            raise Unsupported(f'pattern {self.pattern!r} on a symbolic text')
        c, d = chr(p[0][1]), chr(p[-1][1])
        body = p[1:-1]
        g = None
        cs = chars_of(body)
        if len(body) == 1 and body[0][0] is _sc.SUBPATTERN:
            g = body[0][1][0]
        elif self.native.groups:
            raise Unsupported(f'groups of {self.pattern!r} on a symbolic text')
        if cs is None or c in cs or d in cs or self.flags:
            raise Unsupported(f'pattern {self.pattern!r} on a symbolic text')
        return c, body, d, g

    def scan(self, x):
        """list of constants/atoms and matches"""
        c, body, d, g = self.brace()
        i = need(x)
        R = z3re(body)
        out, k = [], 0
        for a in i:
            if not isinstance(a, str) and not {c, d} <= a.excl:
                raise Unsupported(f'{a.t} may contain {c} or {d}')
        while k < len(i):
            a = i[k]
            if isinstance(a, str) and a == c:
                j = k + 1
                while j < len(i) and not (isinstance(i[j], str) and i[j] in (c, d)):
                    j += 1
                if j < len(i) and i[j] == d:
                    mid = text(i[k + 1:j])
                    if self.member(mid, c, d, R):
                        out.append(Match(text(i[k:j + 1]), [mid] if g else [], self.names))
                        k = j + 1
                        continue
            out.append(a)
            k += 1
        return out

    def member(self, mid, c, d, R):
        if isinstance(mid, str):
            return self.native.fullmatch(c + mid + d) is not None
        i = need(mid)
        if len(i) == 1 and i[0].regex is not None:
            r = inclusion(i[0].regex, R)
            if r is not None:
                return r
        for a in i:
            if not isinstance(a, str) and a.regex is not None:
                eng().assume(z3.InRe(a.t, a.regex))
        return eng().branch(z3.InRe(mid.t, R))

    def findall(self, x):
        if isinstance(x, str):
            return VList(self.native.findall(x))
        return VList([m.gs[0] if m.gs else m.whole for m in self.scan(x) if isinstance(m, Match)])

    def finditer(self, x):
        if isinstance(x, str):
            return self.native.finditer(x)
        return iter([m for m in self.scan(x) if isinstance(m, Match)])

    def sub(self, repl, x, count=0):
        if isinstance(x, str):
            if not callable(repl) and not isinstance(repl, SStr):
                return self.native.sub(repl, x, count)
            out, pos = [], 0
            for m in self.native.finditer(x):
                out += list(x[pos:m.start()]) + need(repl(m) if callable(repl) else repl)
                pos = m.end()
            return text(out + list(x[pos:]))
        if self.pattern.startswith('^'):
            return self.sub_start(repl, x)
        if count:
            raise Unsupported('sub with a count')
        out = []
        for m in self.scan(x):
            if isinstance(m, Match):
                if callable(repl):
                    r = repl(m)
                else:
                    if isinstance(repl, SStr) or '\\' in repl:
                        raise Unsupported('replacement text')
                    r = repl
                out += need(r)
            else:
                out.append(m)
        return text(out)

    def sub_start(self, repl, x):
        """pattern anchored at the start: decided by the constant text in front of the first atom"""
        i = need(x)
        n = 0
        while n < len(i) and isinstance(i[n], str):
            n += 1
        pre = ''.join(i[:n])
        ms = [self.native.match(pre + s) for s in ('', 'x', ' ', '-', '.', '0', 'xx y')]
        spans = {m.end() if m else None for m in ms}
        if len(spans) != 1 or (None not in spans and max(spans) > n) or callable(repl):
            raise Unsupported(f'{self.pattern!r} on a text beginning with an atom')
        m = ms[0]
        return x if m is None else text(list(repl) + i[m.end():])

    def search(self, x):
        if isinstance(x, str):
            return self.native.search(x)
        p = list(self.parsed)
        i = need(x)
        if len(p) == 1 and p[0][0] in (_sc.IN, _sc.LITERAL):
            pos, cs = inset(p[0][1]) if p[0][0] is _sc.IN else (True, {chr(p[0][1])})
            if pos:
                if any(isinstance(a, str) and a in cs for a in i) or any(not isinstance(a, str) and a.has & cs for a in i):
                    return Match(None, [], {})
                if all(isinstance(a, str) or cs <= a.excl for a in i):
                    return None
        raise Unsupported(f'search of {self.pattern!r} in a symbolic text')

    def lang(self, full):
        """z3 regular expression of the texts that match; a line end before the end is none"""
        p = list(self.parsed)
        if p and p[0] == (_sc.AT, _sc.AT_BEGINNING):
            p = p[1:]
        rs = []
        for q in alternatives(p):
            if q and q[-1] in ((_sc.AT, _sc.AT_END), (_sc.AT, _sc.AT_END_STRING)):
                rs.append(z3re(q[:-1]))     # texts with a newline at the end are excluded by the callers' atoms
            else:
                rs.append(z3re(q) if full else z3.Concat(z3re(q), z3.Full(z3.ReSort(S))))
        return rs[0] if len(rs) == 1 else z3.Union(*rs)

    def _bool(self, x, full):
        R = self.lang(full)
        i = items(x)
        if i:
            n = 0
            while n < len(i) and isinstance(i[n], str):
                n += 1
            pre = ''.join(i[:n])
            if n and inclusion(z3.Concat(z3.Re(pre), z3.Full(z3.ReSort(S))), R) is False:
                return None
        return Match(x, [], {}) if eng().branch(z3.InRe(x.t, R)) else None

    def match(self, x):
        if isinstance(x, str):
            return self.native.match(x)
        first = self.first()
        i = items(x)
        if first is not None and i:
            # the first character decides
            if isinstance(i[0], str) and i[0] not in first or not isinstance(i[0], str) and first <= i[0].first:
                return None
        return self._bool(x, False)

    def first(self):
        """characters a match can begin with (None: unknown)"""
        p = list(self.parsed)
        if p and p[0][0] is _sc.BRANCH:
            out = set()
            for b in p[0][1][1]:
                if not b or b[0][0] is not _sc.LITERAL:
                    return None
                out.add(chr(b[0][1]))
            return out
        return {chr(p[0][1])} if p and p[0][0] is _sc.LITERAL else None

    def fullmatch(self, x):
        return self.native.fullmatch(x) if isinstance(x, str) else self._bool(x, True)

    def split(self, x, maxsplit=0):
        if isinstance(x, str):
            return self.native.split(x, maxsplit)
        raise Unsupported('re.split of a symbolic text')


def make_re(loader):
    def c(p, flags=0):
        return p if isinstance(p, Pattern) else Pattern(p, int(flags))

    def escape(x):
        if isinstance(x, str):
            return _re.escape(x)
        raise Unsupported('re.escape of a symbolic text')
    d = dict(compile=c, sub=lambda p, r, x, count=0, flags=0: c(p, flags).sub(r, x, count), escape=escape, error=_re.error, Pattern=Pattern)
    for n in ('match', 'search', 'fullmatch', 'findall', 'finditer', 'split'):
        d[n] = (lambda n: lambda p, x, *a, flags=0: getattr(c(p, flags), n)(x, *a))(n)
    for n in ('IGNORECASE', 'I', 'MULTILINE', 'M', 'DOTALL', 'S', 'VERBOSE', 'X', 'ASCII', 'A', 'UNICODE', 'U'):
        d[n] = getattr(_re, n)
    return ModelModule('re', d)


# ------------------------------------------------------------------ csv
class StringIO:
    def __init__(self, s=''):
        self.s = s


def csv_reader(f, dialect='excel', delimiter=',', quotechar='"', **k):
    """rows of the text (csv.reader, excel dialect)"""
    if k or dialect != 'excel':
        raise Unsupported(f'csv options {k}')
    if not isinstance(f, StringIO):
        raise Unsupported('csv of something that is no StringIO')
    if isinstance(f.s, str):
        import csv
        import io
        return VList([VList(r) for r in csv.reader(io.StringIO(f.s), delimiter=delimiter, quotechar=quotechar)])
    i = need(f.s)
    rows, row, field = [], [], []
    st = 'start'    # start of a field, in a field, in quotes, quote in quotes
    for a in i:
        if isinstance(a, str):
            if a in '\r\n' and st != 'quoted':
                raise Unsupported('several rows')
            if st == 'start':
                if a == quotechar:
                    st = 'quoted'
                elif a == delimiter:
                    row.append(text(field))
                    field = []
                else:
                    field.append(a)
                    st = 'field'
            elif st == 'field':
                if a == delimiter:
                    row.append(text(field))
                    field, st = [], 'start'
                else:
                    field.append(a)
            elif st == 'quoted':
                if a == quotechar:
                    st = 'quote'
                else:
                    field.append(a)
            else:
                if a == quotechar:
                    field.append(a)
                    st = 'quoted'
                elif a == delimiter:
                    row.append(text(field))
                    field, st = [], 'start'
                else:
                    field.append(a)
                    st = 'field'
        elif st == 'quoted':
            if quotechar in a.excl:
                field.append(a)
            elif a.of and a.of[1:] == (quotechar, quotechar * 2):
                field.append(a.of[0])       # doubled quotes in quotes stand for one
            else:
                raise Unsupported(f'{a.t} may contain quotes')
        else:
            if not {delimiter, '\n', '\r'} <= a.excl or not (st == 'field' or quotechar in a.first):
                raise Unsupported(f'{a.t} may contain a delimiter or begin with a quote')
            if st == 'quote':
                st = 'field'
            field.append(a)
            st = 'field'
    row.append(text(field))
    rows.append(VList(row))
    return VList(rows)


def make_csv(loader):
    return ModelModule('csv', dict(reader=csv_reader, StringIO=StringIO, QUOTE_MINIMAL=0, QUOTE_ALL=1))


MODELS = {'re': make_re, 'csv': make_csv, 'io': lambda l: ModelModule('io', dict(StringIO=StringIO))}
