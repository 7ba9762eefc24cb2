"""C02: averages over windows."""
from contracts.agg import *
from contracts.C03 import refused

ASSUMPTIONS = [
    'a message exists at or after every hour of every requested window (halfweights: at least two messages within each window); one message per end step; all messages share one grid',
    'message values are finite reals (NaN/inf, float32 rounding and mixed plain/masked sets: run-time contracts)',
    'get_masks for any number of arguments: its contract is verified in C01/C04 (get_masks-any-number)',
    'the sums over hours/messages are ghost functions defined by their recurrences; the lemmas on them are verified by induction (lemmas)',
    'numpy, numexpr, bisect, OrderedDict: assumed contracts (pyvc/models), cross-checked by the run-time contracts',
]


class Ghost:
    """ghost sums over the hours of the window starting at t (positions are absolute hours)"""

    def __init__(self, s):
        self.s, e = s, s.e
        self.fst_ = e.fresh_fn('first_at_or_after', Z, Z)
        self.last = e.fresh_fn('lastmsg', Z, Z)
        self.PS_ = e.fresh_fn('sum_hours', Z, Z, Z, R)      # plain sum of the hourly values
        self.C_ = e.fresh_fn('count_messages', Z, Z, Z)
        self.W_ = e.fresh_fn('sum_weights', Z, Z, R)
        self.PW_ = e.fresh_fn('sum_weighted', Z, Z, Z, R)
        self.MS_ = e.fresh_fn('window_missing', Z, Z, B)
        self.MW_ = e.fresh_fn('window_missing_w', Z, Z, Z)

    def fst(self, t, u):
        """first message at or after hour u (the window's witness message bounds it)"""
        s, e = self.s, self.s.e
        u = _simp(u)
        f = self.fst_(u)
        j = z3.Int('j!f')
        l = self.last(t)
        if e.axioms_seen.get(('fst', u.get_id(), t.get_id())) is None:
            if not any(f.eq(x) for x in s.terms):
                s.terms.append(f)
            e.axiom(('fst', u.get_id(), t.get_id()), zimp(zand(s.H0(l), l >= u), zand(s.H0(f), f >= u, z3.ForAll([j], zimp(zand(s.H0(j), j >= u), j >= f), patterns=[s.H0(j)]))))
            sync(s)
        return f

    def rec(self, name, fn, lo, inc, t, q, *i):
        """fn(t,lo)=0, fn(t,q+1)=fn(t,q)+inc(q)"""
        e = self.s.e
        q = _simp(q)
        key = (name, t.get_id(), q.get_id()) + tuple(x.get_id() for x in i)
        e.keep.extend([t, q, *i])
        if key not in e.axioms_seen:
            r = fn(t, q, *i)
            zero = z3.RealVal(0) if r.sort() == R else z3.IntVal(0)
            qp = _simp(q - 1)
            e.axiom(key, zand(fn(t, lo, *i) == zero, zimp(qp >= lo, r == fn(t, qp, *i) + inc(qp)), fn(t, _simp(q + 1), *i) == r + inc(q) if False else T))
        return fn(t, q, *i)

    def PS(self, t, q, i):
        return self.rec('PS', self.PS_, t + 1, lambda u: self.s.Df(self.fst(t, u), i), t, q, i)

    def w(self, t, u):
        return z3.If(zor(u == t, u == t + self.s.step.t), z3.Q(1, 2), z3.RealVal(1))

    def C(self, t, q):
        r = self.rec('C', self.C_, t, lambda u: z3.If(self.s.H0(u), 1, 0), t, q)
        self.s.e.axiom(('Cp', t.get_id(), _simp(q).get_id()), zimp(q >= t, zand(r >= 0, 2 * self.W_(t, _simp(q)) >= z3.ToReal(r))))     # lemma, verified by induction
        return r

    def W(self, t, q):
        self.C(t, q)
        return self.rec('W', self.W_, t, lambda u: z3.If(self.s.H0(u), self.w(t, u), z3.RealVal(0)), t, q)

    def PW(self, t, q, i):
        return self.rec('PW', self.PW_, t, lambda u: z3.If(self.s.H0(u), self.w(t, u) * self.s.Df(u, i), z3.RealVal(0)), t, q, i)

    def MS(self, t, i):
        """missing in the window: some used message is missing there"""
        s, e = self.s, self.s.e
        S = s.step.t
        if s.masked is not True:
            return F
        q = z3.Int('q!ms')
        if s.half:
            used = lambda u: zand(u >= t, u <= t + S, s.H0(u))
            src = lambda u: u
        else:
            used = lambda u: zand(u > t, u <= t + S)
            src = lambda u: self.fst_(u)
        key = ('MS', t.get_id(), i.get_id())
        e.keep.extend([t, i])
        if key not in e.axioms_seen:
            m, w = self.MS_(t, i), self.MW_(t, i)
            e.axiom(key, zand(zimp(m, zand(used(w), s.Mf(src(w), i))), z3.ForAll([q], zimp(zand(used(q), s.Mf(src(q), i)), m), patterns=[s.Mf(src(q), i)])))
        return self.MS_(t, i)


def average(masked, half, first, what='values'):
    def h(e):
        second = first == 'second'
        s = setup(e, 'average', masked, half=half, what=what, extra={'sec_temp_res': object() if second else None})
        S = s.step.t
        if first == 'start0':
            e.assume(s.start.t == 0)
            lo = s.start.t
        elif second:
            lo = s.start.t
        else:
            e.assume(s.start.t >= S)
            lo = _simp(s.start.t - S)
        hi = s.end.t - S + 1
        g = Ghost(s)

        def out(t):
            t = _simp(t)
            end = _simp(t + S + 1)
            if half:
                v = lambda i: g.PW(t, end, i) / g.W(t, end)
            else:
                v = lambda i: g.PS(t, end, i) / z3.ToReal(S)
            return Field(v, lambda i: g.MS(t, i))

        def outer(d):
            s.win = d
            return {path: OutInv(s, lambda t: mkstep(s, t, t + S), out) for path, o in d.mut.items() if isinstance(o, VDict) and not is_steps_map(o)}

        def hour_of(d):
            if z3.is_int_value(_simp(d.lo)) and not z3.is_int_value(_simp(s.win.pos)):           # positions relative to the window
                return lambda q: _simp(q + s.win.pos + (0 if half else 1) - d.lo)
            return lambda q: q

        def inner(d):
            t = s.win.pos
            hour = hour_of(d)
            invs = {}
            dt1 = z3.ToReal(S) / z3.ToReal(g.C(t, t + S + 1) - 1)

            def arr(f, m=lambda i: F):
                return Arr(s.shape, lambda i: SReal(f(i), F, core.I0, True), 'f8')
            for k, v in list(d.entry.items()) + list(d.mut.items()):
                if isinstance(v, Arr):
                    invs[k] = ArrInv(k, [('hours', lambda d: (lambda q: arr(lambda i: g.PS(t, q, i)))(hour(d.pos))), ('weighted', lambda d: (lambda q: arr(lambda i: dt1 * g.PW(t, q, i)))(hour(d.pos))),
                                         ('weights', lambda d: (lambda q: arr(lambda i: g.PW(t, q, i)))(hour(d.pos)))],
                                     (lambda i: znot(g.MS(t, i))) if half and s.masked is True else None)
                elif isinstance(v, (int, float, SInt, SReal)) and not isinstance(v, bool):
                    v0 = v
                    invs[k] = CandInv(k, [('steps', lambda d, v0=v0: ew('+', core.toreal(lift(v0)) if isinstance(lift(v0), SReal) else lift(v0), SInt(_simp(d.pos - d.lo)))),
                                          ('messages', lambda d, v0=v0: ew('+', lift(v0), SInt(g.C(t, hour(d.pos))))),
                                          ('weights', lambda d, v0=v0: ew('+', lift(v0), SReal(dt1 * g.W(t, hour(d.pos))))),
                                          ('weights1', lambda d, v0=v0: ew('+', lift(v0), SReal(g.W(t, hour(d.pos)))))])
                elif isinstance(v, VList) and k in d.mut:
                    if half:
                        H = lambda q: s.H0(hour(q))

                        def el(q):
                            m = s.val(hour(q))
                            return Arr(s.shape, lambda i: SReal(m.at(i).t * (dt1 * g.w(t, hour(q))), F, core.I0, True), 'f8', (lambda i: m.m(i)) if m.ismasked else None)
                        eq = lambda a, b: zand(T if isinstance(a, Arr) and a.ismasked == b.ismasked else F, samemask(s, a, b))
                        invs[k] = SeqInv(k, H, el, eq)
                    else:
                        invs[k] = SeqInv(k, None, lambda q: s.val(g.fst(t, hour(q)) if not str(q) == 'q!or' else g.fst_(hour(q))), lambda a, b: zand(T if isinstance(a, Arr) and a.ismasked == b.ismasked else F, samemask(s, a, b)))
            return invs

        e.state['loop_spec'] = lambda d: outer(d) if isinstance(d.iterable, SRange) and _simp(d.iterable.st).eq(_simp(S)) else inner(d)

        def on_pos(d):
            p = d.pos
            if not _simp(d.st).eq(_simp(S)):
                if not half:
                    g.fst(s.win.pos, hour_of(d)(p))
                return
            if half:
                e.assume(zimp(zand(p >= lo, p + S <= s.end.t), g.C(p, p + S + 1) >= 2))
            else:
                l = g.last(p)
                e.assume(zimp(zand(p >= lo, p + S <= s.end.t), zand(s.H0(l), l >= p + S)))
        e.state['on_pos'] = on_pos
        e.cover('pre')
        r, ex = call(s.agg.do_manipulation, s.values)
        e.prove('average does not fail', ex is None, extxt(ex) + trace(ex) if ex else '')
        if ex is None:
            check_result(s, r, None, lo, hi, S)
            e.cover('post')
    return h


def samemask(s, a, b):
    if not isinstance(a, Arr):
        return F
    i = s.e.fresh(Z, 'mi')
    return zimp(zand(i >= 0, i < s.shape[0].t), a.m(i) == b.m(i))


def lemmas(e):
    """induction steps of the lemmas on the ghost sums: count >= 0 and 2*weights >= count"""
    C0, W0 = e.fresh(Z, 'C'), e.fresh(R, 'W')
    has, endp = e.fresh(B, 'has'), e.fresh(B, 'end')
    w = z3.If(endp, z3.Q(1, 2), z3.RealVal(1))
    C1 = C0 + z3.If(has, 1, 0)
    W1 = W0 + z3.If(has, w, z3.RealVal(0))
    e.prove('base', zand(z3.IntVal(0) >= 0, 2 * z3.RealVal(0) >= z3.ToReal(z3.IntVal(0))))
    e.assume(zand(C0 >= 0, 2 * W0 >= z3.ToReal(C0)))
    e.cover('pre')
    e.prove('step', zand(C1 >= 0, 2 * W1 >= z3.ToReal(C1)))


def avg_vcs(what, kinds):
    return [dict(name=f'average[{"halfweights" if hw else "mean"},{fi},{k}]', harness=average(k2, hw, fi, what), covers=['pre', 'post'])
            for hw in (False, True) for fi in ('start0', 'later', 'second') for k, k2 in kinds]


def vcs(tier):
    return avg_vcs('values', [('masked', True), ('plain', False), ('nomask', 'nomask')]) + [dict(name='lemmas', harness=lemmas), dict(name='refused', harness=refused('average'))]
