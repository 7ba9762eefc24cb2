"""Shared contract machinery of the Aggregator properties (C01-C04).

Input messages: an arbitrary map from Step to field, indexed by end step e in an arbitrary
set H0 of integers; all fields share one (symbolic) shape; each message is an arbitrary
field D(e, cell) with missing cells M(e, cell).
"""
import z3
from pyvc.harness import *
from pyvc.arr import Arr, sym_array, NOMASK, asarr, elementwise, dimt
from pyvc.containers import VDict, VList, Inv, CandInv, ArrInv, SeqInv, iterm, ISeq, sint, SRange, cong, cong_gap, StarSeq
from pyvc.core import R, Z, B, T, F, _simp


class Setup:
    pass


def setup(e, agg, masked, **opt):
    """symbolic messages and an Aggregator built by the real constructor"""
    s = Setup()
    L = s.L = loader()
    s.P = L.load('pyg2p')
    s.A = L.load('pyg2p.main.manipulation.aggregator')
    s.e = e
    n = sint_(e, 'cells')
    e.assume(n.t >= 1)
    s.shape = (n,)
    s.H0f = e.fresh_fn('has', Z, B)
    s.Df = e.fresh_fn('D', Z, Z, R)
    s.Mf = e.fresh_fn('M', Z, Z, B)
    s.res = sint_(e, 'res')
    s.level = sint_(e, 'level')
    sst = e.fresh_fn('startstep', Z, Z)
    inst = e.fresh_fn('instep', Z, Z)
    s.cache = {}
    s.terms = e.state.setdefault('spec_terms', [])
    s.what = opt.get('what', 'values')
    s.masked = masked
    Step = s.P.Step

    def val(t):
        t = _simp(t)
        k = t.get_id()
        if k not in s.cache:
            mask = None if masked is False else NOMASK if masked == 'nomask' else (lambda i: s.Mf(t, i))
            a = Arr(s.shape, lambda i: SReal(s.Df(t, i), F, core.I0, True), 'f8', mask)
            a.frozen = 'an input message'
            s.cache[k] = (t, a)
        return s.cache[k][1]

    def key(t):
        st = Step(SInt(sst(t)), SInt(t), s.res, SInt(inst(t)), s.level)
        return st

    def unkey(k):
        if type(k).__name__ == 'Step':
            t = iterm(k.end_step)
            return zand(zb(k.start_step == SInt(sst(t))), zb(k.resolution == s.res), zb(k.input_step == SInt(inst(t))), zb(k.level == s.level)), t
        if isinstance(k, (SInt, int)):
            return F, z3.IntVal(0)
        raise Unsupported('key of the message map')
    s.val = val
    s.H0 = lambda t: s.H0f(t)
    s.values = VDict(base=(s.H0, val), order=None, key=key)
    s.values.unkey = unkey
    e.state['unkey'] = None
    # at least one message
    w = e.fresh(Z, 'some_step')
    e.assume(zand(s.H0(w), w >= 0))
    j = z3.Int('j!n')
    e.assume(z3.ForAll([j], zimp(s.H0(j), j >= 0), patterns=[s.H0(j)]))
    s.values._n()
    e.assume(e.state['mapn'][id(s.values.base)][1] >= 1)
    s.step = sint_(e, 'step')
    e.assume(s.step.t >= 1)
    s.start = sint_(e, 'tstart')
    s.end = sint_(e, 'tend')
    s.unit = sint_(e, 'unitTime')
    e.assume(zand(s.start.t >= 0, s.end.t >= 0))
    s.instep = sint_(e, 'inputstep')
    e.assume(s.instep.t >= 0)
    s.force = opt.get('force', False)
    s.half = opt.get('half', False)
    s.stype = opt.get('stype', 'instant')
    s.agg = s.A.Aggregator(aggr_step=s.step, aggr_type=agg, aggr_halfweights=s.half, input_step=s.instep, step_type=s.stype, start_step=s.start,
                           mv_grib=-9999.0, end_step=s.end, unit_time=s.unit, force_zero_array=s.force, **opt.get('extra', {}))
    # contract of numeric.get_masks for a symbolic number of arguments (proved in get_masks_contract)
    num = L.load('pyg2p.util.numeric')
    real = num.get_masks

    def gm(*args):
        if len(args) == 1 and isinstance(args[0], StarSeq):
            return or_of_seq(args[0].seq)
        return real(*args)
    num.get_masks = gm
    s.num = num
    return s


def or_of_seq(seq):
    """contract of get_masks(*seq): None if no argument is a masked array, else the union of the masks"""
    e = eng()
    if not isinstance(seq, ISeq):
        raise Unsupported('get_masks of this collection')
    lo, hi, elem, guard = seq.abs or (z3.IntVal(0), seq.n, seq.elem, seq.guard)
    rng = lambda q: zand(q >= lo, q < hi, guard(q) if guard else T)
    j = e.fresh(Z, 'gm')
    sample = elem(j)
    if not isinstance(sample, Arr):
        raise Unsupported('get_masks of non arrays')
    if not sample.ismasked:
        return None
    if sample.nomask:
        return NOMASK
    k = len(sample.shape)
    u = e.fresh_fn('anymask', *([Z] * k + [B]))
    w = e.fresh_fn('anymaskw', *([Z] * k + [Z]))

    def at(*i):
        wi = w(*i)
        e.axiom(('orw', u(*i).get_id()), zimp(u(*i), zand(rng(wi), elem(wi).m(*i))))
        q = z3.Int('q!or')
        e.axiom(('ora', u(*i).get_id()), z3.ForAll([q], zimp(zand(rng(q), elem(q).m(*i)), u(*i))))
        e.keep.append(u(*i))
        return SBool(u(*i))
    return Arr(sample.shape, at, 'b1')


# ------------------------------------------------------------------ spec: the field at a step
class Field:
    """spec-level field: value and missing flag per cell"""

    def __init__(self, v, m):
        self.v, self.m = v, m       # v(i)->R term, m(i)->Bool term


def orig(s, t):
    return Field(lambda i: s.Df(t, i), (lambda i: s.Mf(t, i)) if s.masked is True else (lambda i: F))


ZERO = Field(lambda i: z3.RealVal(0), lambda i: F)


def fite(c, a, b):
    c = zb(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    return Field(lambda i: z3.If(c, a.v(i), b.v(i)), lambda i: z3.If(c, a.m(i), b.m(i)))


def neighbours(s, H, name='nb'):
    """pred/succ of a step in the message set H (spec functions), instantiated per step"""
    e = s.e
    if not hasattr(s, 'pf'):
        s.pf, s.sf = e.fresh_fn('pred', Z, Z), e.fresh_fn('succ', Z, Z)

    def inst(t):
        a, b = s.pf(t), s.sf(t)
        j = z3.Int('j!nb')
        # adjacency: no message strictly between
        e.axiom(('adj', _simp(t).get_id()), z3.ForAll([j], zimp(zand(H(j)), zand(zimp(j < t, j <= a), zimp(j > t, j >= b)))))
        for x in (a, b, t):
            if not any(x.eq(y) for y in s.terms):
                s.terms.append(x)
        sync(s)
        return a, b
    return inst


def sync(s):
    """instances: every spec-named message step has a position in each sorted key list"""
    for sk in s.e.state.get('sortedkeys', []):
        for t in s.terms:
            sk.inst(t)


def prove_arr(s, name, v, f):
    """the array v carries the spec field f
    s.what == 'values': every cell that the spec calls valid is valid in v and has the specified value
    s.what == 'missing': v is missing exactly where the spec says"""
    e = s.e
    if not isinstance(v, Arr) or len(v.shape) != 1:
        e.prove(name + ': is a field', F)
        return
    i = e.fresh(Z, 'cell')
    r = zand(i >= 0, i < s.shape[0].t)
    e.prove(name + ': has one value per grid cell', zb(v.shape[0] == s.shape[0]))
    fm = f.m(i)
    vm = v.m(i)
    x = core.toreal(v.at(i)) if s.what == 'values' else None
    sync(s)
    if s.what == 'missing':
        e.prove(name + ': missing exactly where a used message is missing', zimp(r, vm == fm))
    else:
        if not (z3.is_false(vm)):
            e.prove(name + ': a cell with all its sources valid is valid', zimp(zand(r, znot(fm)), znot(vm)))
        goal = zimp(zand(r, znot(fm)), zand(znot(x.nan), x.inf == 0, x.t == f.v(i)))
        e.prove(name + ': has the specified value', e.reduced(goal, [(e.state.get('keysused', []), s.terms)]))


def to_arr(s, t, f):
    """an arbitrary array carrying the spec field f of step t (only what the mode guarantees)"""
    if not hasattr(s, 'Wf'):
        s.Wf, s.Uf = s.e.fresh_fn('unspecified', Z, Z, R), s.e.fresh_fn('unspecmask', Z, Z, B)
    if s.what == 'missing':
        return Arr(s.shape, lambda i: SReal(s.Wf(t, i), F, core.I0, True), 'f8', lambda i: f.m(i))
    if z3.is_false(_simp(f.m(z3.Int('probe')))):
        return Arr(s.shape, lambda i: SReal(f.v(i), F, core.I0, True), 'f8', lambda i: F)
    return Arr(s.shape, lambda i: SReal(z3.If(f.m(i), s.Wf(t, i), f.v(i)), F, core.I0, True), 'f8', lambda i: zand(f.m(i), s.Uf(t, i)))


class FieldMapInv(Inv):
    """a working map step -> field: it keeps every message and whatever it adds is the spec field of that step"""

    def __init__(self, s, spec):
        self.s, self.spec = s, spec

    def entry(self, d, v):
        self.has0 = lambda t: zor(v_has(v0, t))
        v0 = snapshot(v)
        self.v0 = v0
        e = eng()
        for k, x in v0.ent:
            prove_arr(self.s, 'working map before the loop', x, self.spec(iterm(k)))

    def havoc(self, d, v):
        e = eng()
        s = self.s
        X = e.fresh_fn('added', Z, B)
        v0 = self.v0

        def val(t):
            t = _simp(t)
            # original message objects are handed out as such (frame check)
            if e.known(s.H0(t)):
                return s.val(t)
            return to_arr(s, t, self.spec(t))
        has0 = lambda t: v_has(v0, t)
        v.ent = []
        v.base = (lambda t: zor(has0(t), X(t)), val)
        v.order = None

    def check(self, d, v):
        e = eng()
        for k, x in v.ent:
            prove_arr(self.s, 'loop invariant: field added to the working map', x, self.spec(iterm(k)))


def v_has(v, t):
    return zor(*([t == iterm(k) for k, _ in v.ent] + ([v.base[0](t)] if v.base else [])))


def snapshot(v):
    r = VDict.__new__(VDict)
    r.__dict__.update(v.__dict__)
    r.ent = list(v.ent)
    return r


class OutInv(Inv):
    """the result map: exactly one entry per position of the loop so far, with the specified key and field"""

    def __init__(self, s, key, spec):
        self.s, self.key, self.spec = s, key, spec

    def entry(self, d, v):
        eng().prove('result map is empty before the loop', len(v.ent) == 0 and v.base is None)

    def havoc(self, d, v):
        lo, st, p = d.lo, d.st, d.pos
        v.ent = []
        v.base = (lambda t: zand(t >= lo, t < p, cong(t - lo, st)), lambda t: to_arr(self.s, t, self.spec(t)))
        v.keyfn = lambda t: self.key(t)
        v.unkey = None
        v.outinv = self
        self.d, self.exit = d, p

    def check(self, d, v):
        e = eng()
        p = d.pos_prev
        e.prove('each iteration adds exactly one map', len(v.ent) == 1)
        if len(v.ent) != 1:
            return
        k, x = v.ent[0]
        if self.s.what == 'values':
            e.prove('the map is keyed by its window', key_eq(k, self.key(p)))
        prove_arr(self.s, 'map of a window', x, self.spec(p))


def key_eq(a, b):
    if type(a).__name__ != 'Step':
        return F
    return zand(*[zb(getattr(a, n) == getattr(b, n)) for n in ('start_step', 'end_step', 'resolution', 'input_step', 'level')])


def mkstep(s, a, b):
    return s.P.Step(SInt(a), SInt(b), s.res, s.step, s.level)


def is_steps_map(v):
    return isinstance(v, VDict) and (v.base is not None)


def check_result(s, r, inv_t, lo, hi, st, guard=None):
    """the returned map is the loop's result map over exactly the required range"""
    e = s.e
    e.prove('a map is returned', isinstance(r, VDict))
    if not isinstance(r, VDict):
        return
    ok = getattr(r, 'outinv', None) is not None and not r.ent
    if not ok and not r.ent and r.base is None:
        # no window at all
        e.prove('no window is missed', hi <= lo)
        return
    e.prove('the returned map is the one built window by window', ok)
    if not ok:
        return
    t = e.fresh(Z, 'anywindow')
    want = zand(t >= lo, t < hi, cong(t - lo, st))
    got = r.base[0](t)
    d = r.outinv.d
    cong_gap(t - d.lo, r.outinv.exit - d.lo, d.st)
    e.prove('exactly the requested windows are produced', got == want)


def get_masks_contract(e):
    """numeric.get_masks: None when no argument is masked, otherwise the union of the masks (2-3 arguments and any number)"""
    L = loader()
    num = L.load('pyg2p.util.numeric')
    n = sint_(e, 'cells')
    e.assume(n.t >= 1)
    k = 1 + e.choose(3)
    kinds = [[False, True, 'nomask'][e.choose(3)] for _ in range(k)]
    arrs = [sym_array(f'a{j}', (n,), masked=kinds[j]) for j in range(k)]
    e.cover('pre')
    r, ex = call(num.get_masks, *arrs)
    e.prove('get_masks does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    post_masks(e, r, n, kinds, lambda i: zor(*[a.m(i) for a in arrs]))


def post_masks(e, r, n, kinds, anym):
    i = e.fresh(Z, 'i')
    e.assume(zand(i >= 0, i < n.t))
    if r is None:
        e.prove('None only without masked arguments', all(k is False for k in kinds))
    elif r is NOMASK:
        e.prove('nomask only when nothing is masked', znot(anym(i)))
    else:
        b = asarr(r)
        at = b.at(i) if b.shape else b.at()
        e.prove('the mask is the union of the masks', zb(core.tobool(at)) == anym(i))


def get_masks_seq(e):
    """get_masks(*seq) for a sequence of any length of masked arrays: the union of the masks"""
    L = loader()
    num = L.load('pyg2p.util.numeric')
    n = sint_(e, 'cells')
    e.assume(n.t >= 1)
    ln = sint_(e, 'count')
    e.assume(ln.t >= 1)
    Mf = e.fresh_fn('M', Z, Z, B)
    seq = ISeq(ln.t, lambda j: Arr((n,), lambda i: SReal(e.fresh(R, 'd'), F, core.I0, True), 'f8', lambda i: Mf(j, i)))
    U = e.fresh_fn('unionupto', Z, Z, B)       # union of the first p masks

    def spec(d):
        def cand(d):
            p = d.pos
            if p.eq(d.lo):
                return None
            return Arr((n,), lambda i: SBool(uu(p, i)), 'b1')

        def uu(p, i):
            p = _simp(p)
            e.axiom(('U', p.get_id(), i.get_id()), zand(U(0, i) == F, U(p + 1, i) == zor(U(p, i), Mf(p, i)), zimp(p >= 1, U(p, i) == zor(U(p - 1, i), Mf(p - 1, i)))))
            return U(p, i)
        return {k: NoneOr(k, cand, uu, n) for k, v in d.entry.items() if v is None}
    e.state['loop_spec'] = spec
    e.cover('pre')
    r, ex = call(num.get_masks, StarSeq(seq))
    e.prove('get_masks does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    i = e.fresh(Z, 'i')
    e.assume(zand(i >= 0, i < n.t))
    e.prove('a mask is returned', isinstance(r, Arr))
    if isinstance(r, Arr):
        e.prove('the mask is the union of all the masks', zb(r.at(i)) == U(ln.t, i))


class NoneOr(Inv):
    """accumulator that is None before the first element and the running union afterwards"""

    def __init__(self, name, cand, uu, n):
        self.name, self.cand, self.uu, self.n = name, cand, uu, n

    def entry(self, d, v):
        pass

    def havoc(self, d, v):
        e = eng()
        if e.branch(d.pos == d.lo):
            return None
        return self.cand(d)

    def check(self, d, v):
        e = eng()
        if not isinstance(v, Arr):
            e.prove('loop invariant: the accumulated mask is the union so far', F)
            return
        i = e.fresh(Z, 'i')
        e.prove('loop invariant: the accumulated mask is the union so far', zimp(zand(i >= 0, i < self.n.t), zb(v.at(i)) == self.uu(d.pos, i)))
__all__ = [n for n in dir() if not n.startswith('__')]
