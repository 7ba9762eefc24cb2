"""C01: accumulation."""
from contracts.agg import *


ASSUMPTIONS = [
    'messages bracket the requested windows: each t and t-step is a message step, or lies between two of them (or step 0 with the zero field)',
    'tstart is 0 or at least one step; one message per end step; all messages share one grid',
    'floats are mathematical reals: rounding is not modelled; message values are finite (NaN/inf and float32 only in the run-time contracts)',
    'numpy, numpy.ma, numexpr, bisect, OrderedDict: assumed contracts (pyvc/models), cross-checked by the run-time contracts',
    'each message is a plain, masked, or nomask array, alike for all messages of a run (mixed sets: run-time contracts)',
]


def accumulate(masked, force, zero, what='values'):
    def h(e):
        s = setup(e, 'accumulation', masked, force=force, stype='accum', what=what)
        S = s.step.t
        s.e.assume(zor(s.start.t == 0, s.start.t >= S))
        if zero == 'start0':
            e.assume(s.start.t == 0)
        elif zero == 'start=s':
            e.assume(s.start.t == S)
        else:
            e.assume(s.start.t > S)
        lo = S if zero == 'start0' else s.start.t
        atzero = zero != 'later'
        H = (lambda t: zor(s.H0(t), t == 0)) if atzero else s.H0
        nb = neighbours(s, H)

        def f0(t):
            return fite(s.H0(t), orig(s, t), ZERO) if atzero else orig(s, t)

        def F_(t):
            t = _simp(t)
            a, b = nb(t)
            x, y = f0(a), f0(b)
            frac = z3.ToReal(t - a) / z3.ToReal(b - a)
            interp = Field(lambda i: x.v(i) + (y.v(i) - x.v(i)) * frac, lambda i: zor(x.m(i), y.m(i)))
            return fite(H(t), f0(t), interp)

        def bracket(t):
            a, b = nb(t)
            return zor(H(t), zand(H(a), H(b), a < t, t < b))

        def out(t):
            x = F_(t)
            y = F_(t - S)
            if force:
                y = fite(t - S == 0, ZERO, y)
            k = z3.ToReal(s.unit.t)
            return Field(lambda i: (x.v(i) - y.v(i)) * k / z3.ToReal(S), lambda i: zor(x.m(i), y.m(i)))

        def spec(d):
            # precondition instance at the current window (generic position)
            invs = {}
            for path, o in d.mut.items():
                if is_steps_map(o):
                    invs[path] = FieldMapInv(s, F_)
                elif isinstance(o, VDict):
                    invs[path] = OutInv(s, lambda t: mkstep(s, t - S, t), out)
            return invs
        e.state['loop_spec'] = spec
        # the precondition "messages bracket every window", as a quantified assumption instantiated at generic positions
        def on_pos(d):
            p = d.pos
            e.assume(zimp(zand(p >= lo, p <= s.end.t, cong(p - lo, S)), zand(bracket(p), bracket(_simp(p - S)))))
        e.state['on_pos'] = on_pos
        e.cover('pre')
        r, ex = call(s.agg.do_manipulation, s.values)
        e.prove('accumulation does not fail', ex is None, extxt(ex) + trace(ex) if ex else '')
        if ex is None:
            check_result(s, r, None, lo, s.end.t + 1, S)
            e.cover('post')
    return h


def vcs(tier):
    out = [dict(name='get_masks', harness=get_masks_contract), dict(name='get_masks-any-number', harness=get_masks_seq)]
    for zero in ('start0', 'start=s', 'later'):
        for force in (False, True):
            for masked in (True, False):
                out.append(dict(name=f'accumulation[{zero},force={force},{"masked" if masked else "plain"}]', harness=accumulate(masked, force, zero), covers=['pre', 'post']))
    return out
