"""C15 contracts: GRIBReader.get_grib_info and _find_start_end_steps, for any number of messages in any order."""
from contracts.grb import *
from pyvc.core import _simp

ASSUMPTIONS = [
    'eccodes by contract: codes_get returns the value of the key',
    'sorted() returns the elements in ascending order (the sorted start and end steps are the spec functions startAt(k), endAt(k)); min() and max() are the least and the greatest element',
    'the selected messages are those of C14',
]


class Steps:
    """the sorted start and end steps of n messages"""

    def __init__(self, e, n):
        self.e, self.n = e, n
        self.f = {'startStep': e.fresh_fn('startAt', Z, Z), 'endStep': e.fresh_fn('endAt', Z, Z)}
        self.seen = {k: [] for k in self.f}

    def at(self, k, p):
        """k-th smallest, with the order to every other position in use"""
        e, f = self.e, self.f[k]
        p = _simp(p)
        for q in self.seen[k]:
            e.axiom(('sorted', k, p.get_id(), q.get_id()), zand(zimp(zand(p >= 0, p <= q, q < self.n), f(p) <= f(q)), zimp(zand(q >= 0, q <= p, p < self.n), f(q) <= f(p))))
        if not any(p.eq(q) for q in self.seen[k]):
            self.seen[k].append(p)
            e.keep.append(p)
        return f(p)

    def sort(self, x, key, reverse):
        e = self.e
        if key is not None or reverse:
            raise Unsupported('sort of steps by another order')
        j = e.fresh(Z, 'any')
        e.assume(zand(j >= 0, j < self.n))
        if x.guard is not None or not e.known(x.n == self.n):
            raise Unsupported('sort of some of the steps')
        v = iterm(x.elem(j))
        for k in self.f:
            if e.known(v == kval(j, k).t):
                return ISeq(self.n, lambda p: SInt(self.at(k, p)))
        raise Unsupported('sort of something that is no step')


def info(e):
    lib = grb_world(e, always=('startStep', 'endStep', 'stepType'))
    n = e.fresh(Z, 'count')
    e.inputs.append(('messages', n))
    e.assume(n >= 0)
    asked = []

    def gids(**k):
        asked.append(k)
        v = VList()
        v.pre = ISeq(n, lambda t: Gid(t))
        return v
    lib.r._get_gids = gids
    s = Steps(e, n)
    e.state['sort_iseq'] = s.sort
    e.state['int_str'] = lambda t: core.uf('dec', Z, world.S)(t)
    sel = {'shortName': 'tp'}
    zero, one = z3.IntVal(0), z3.IntVal(1)
    E = lambda p: s.at('endStep', p)
    step = z3.If(n > 1, E(one) - E(zero), kval(zero, 'endStep').t - kval(zero, 'startStep').t)
    # one message: its sorted steps are its steps
    e.assume(zimp(n == 1, zand(E(zero) == kval(zero, 'endStep').t, s.at('startStep', zero) == kval(zero, 'startStep').t)))
    diff = lambda p: E(p) - E(p - 1)
    # c: the first position whose distance differs from that of the two first end steps, n if there is none
    c = e.fresh(Z, 'change')
    e.assume(zand(c <= n, zimp(n >= 2, c >= 2), zimp(n < 2, c == n), zimp(zand(c >= 2, c < n), diff(c) != step)))

    def before(p):
        e.axiom(('same', _simp(p).get_id()), zimp(zand(p >= 2, p < c), diff(p) == step))
        e.keep.append(_simp(p))
    at = lambda p: SStr(z3.Concat(core.uf('dec', Z, world.S)(s.at('startStep', p)), z3.StringVal('-'), core.uf('dec', Z, world.S)(E(p))))

    def spec(d):
        inv = {}
        for name, v in d.entry.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                inv[name] = CandInv(name, [('second step', lambda d: step2(d.pos)), ('same', lambda d, v=v: v)], eq=lambda a, b: zb(a == b))
            elif isinstance(v, (str, SStr)):
                inv[name] = CandInv(name, [('change', lambda d: text(d.pos)), ('same', lambda d, v=v: v)], eq=lambda a, b: zb(SStr.of(a) == b))
        return inv

    def step2(p):
        before(p)
        return SInt(z3.If(p > c, diff(c), z3.IntVal(-1)))

    def text(p):
        before(p)
        return at(c) if e.branch(p > c) else ''
    e.state['loop_spec'] = spec
    e.cover('pre')
    r, ex = call(lib.r.get_grib_info, sel)
    if ex is not None:
        exc = lib.L.load('pyg2p.exceptions')
        e.prove('fails only without messages, with the error for no messages', zand(n == 0, T if isinstance(ex, exc.ApplicationException) and ex.code == exc.NO_MESSAGES else F), extxt(ex))
        return
    e.prove('nothing is reported without messages', n > 0)
    t = e.fresh(Z, 'any')
    e.assume(zand(t >= 0, t < n))
    a, b = iterm(r.start), iterm(r.end)
    e.prove('the first step is not after the start step of any message', a <= kval(t, 'startStep').t)
    e.prove('the last step is not before the end step of any message', b >= kval(t, 'endStep').t)
    j = z3.Int('j!some')
    e.prove('the first step is the start step of a message', z3.Exists([j], zand(j >= 0, j < n, kval(j, 'startStep').t == a)))
    e.prove('the last step is the end step of a message', z3.Exists([j], zand(j >= 0, j < n, kval(j, 'endStep').t == b)))
    e.prove('the input step is the distance of the two first end steps, or the length of the only message', iterm(r.input_step) == step)
    e.prove('the second input step is the first distance that differs', iterm(r.input_step2) == z3.If(zand(c >= 2, c < n), diff(c), z3.IntVal(-1)))
    if e.branch(zand(c >= 2, c < n)):
        e.prove('the change is reported at its position', zb(SStr.of(r.change_step_at) == at(c)))
        e.cover('change')
    else:
        e.prove('no change is reported', zb(SStr.of(r.change_step_at) == ''))
        e.cover('no change')
    e.prove('the kind of step is that of the last message', zb(SStr.of(r.type_of_param) == kval(n - 1, 'stepType')))
    e.prove('the missing value is that of the first message', zb(ew('==', r.mv, SReal(core.uf('key_missing', Z, R)(zero)))))
    e.prove('the criteria given are looked up', len(asked) == 1 and set(asked[0]) == {'shortName'} and asked[0]['shortName'] == 'tp')
    if lib.r.__dict__.get('_step_grib') is not None:
        e.cover('post')


def vcs(tier):
    return [dict(name='get_grib_info', harness=info, covers=['pre', 'change', 'no change'])]
