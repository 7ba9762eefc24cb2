"""C03: instantaneous extraction."""
from contracts.agg import *

ASSUMPTIONS = [
    'a message exists at or after every requested step (except a step 0 without message); one message per end step; all messages share one grid',
    'message values are finite reals (NaN/inf, float32 rounding and mixed plain/masked sets: run-time contracts)',
    'numpy, bisect, OrderedDict: assumed contracts (pyvc/models), cross-checked by the run-time contracts',
]


def instant(masked, stype, first, what='values'):
    def h(e):
        s = setup(e, 'instantaneous', masked, stype=stype, what=what)
        S = s.step.t
        if stype == 'avg':
            lo = s.start.t + s.instep.t
        elif first == 'start-s':
            e.assume(s.start.t > S)
            lo = s.start.t - S
        else:
            e.assume(s.start.t <= S)
            lo = s.start.t
        lo = _simp(lo)
        nb = neighbours(s, s.H0)

        def f(t):
            t = _simp(t)
            _, b = nb(t)
            return fite(s.H0(t), orig(s, t), fite(t == 0, ZERO, orig(s, b)))

        def spec(d):
            return {path: OutInv(s, lambda t: mkstep(s, t, t), f) for path, o in d.mut.items() if isinstance(o, VDict) and not is_steps_map(o)}
        e.state['loop_spec'] = spec

        def on_pos(d):
            p = d.pos
            _, b = nb(p)
            e.assume(zimp(zand(p >= lo, p <= s.end.t), zor(s.H0(p), p == 0, zand(s.H0(b), b > p))))
        e.state['on_pos'] = on_pos
        e.cover('pre')
        r, ex = call(s.agg.do_manipulation, s.values)
        e.prove('instantaneous extraction does not fail', ex is None, extxt(ex) + trace(ex) if ex else '')
        if ex is None:
            check_result(s, r, None, lo, s.end.t + 1, S)
            e.cover('post')
    return h


def refused(agg):
    def h(e):
        s = setup(e, agg, True, stype='accum', half=bool(e.choose(2)))
        e.cover('pre')
        r, ex = call(s.agg.do_manipulation, s.values)
        e.prove('cumulated messages are refused', ex is not None and type(ex).__name__ == 'ApplicationException', extxt(ex))
    return h


def inst_vcs(what, kinds):
    return [dict(name=f'instantaneous[{st},{fi},{k}]', harness=instant(k2, st, fi, what), covers=['pre', 'post'])
            for st, fi in (('instant', 'start-s'), ('instant', 'start'), ('avg', '')) for k, k2 in kinds]


def vcs(tier):
    return inst_vcs('values', [('masked', True), ('plain', False), ('nomask', 'nomask')]) + [dict(name='refused', harness=refused('instantaneous'))]
