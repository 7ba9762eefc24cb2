"""Run-time contracts of the Aggregator (C01-C04) on the real code."""
from fractions import Fraction
import numpy as np
from common import *

RULE = ('random message series (regular and irregular steps, with and without step 0, insertion order shuffled), fields of 1-6 cells (plain, masked, nomask, mixed), '
        'window sizes, ranges, unitTime, both weighting modes, forceZeroArray, step types; expected maps computed cell by cell from the property; '
        'non-trivial: at least one requested window')


def gen_steps(rng, tier, dense=False):
    k = rng.random()
    n = rng.randint(1, 7)
    if k < 0.3:
        d = rng.choice([1, 2, 3, 6, 12])
        s0 = rng.choice([0, d, 2 * d])
        return [s0 + i * d for i in range(n)]
    if k < 0.6:
        d1, d2 = rng.choice([(1, 3), (3, 6), (6, 12), (1, 6), (2, 5)])
        st = [rng.choice([0, d1])]
        for i in range(n):
            st.append(st[-1] + (d1 if i < n // 2 else d2))
        return st
    return sorted(rng.sample(range(0, 31), rng.randint(1, 9)))


def gen(rng, tier, agg):
    while True:
        steps = gen_steps(rng, tier)
        s = rng.choice([1, 2, 3, 4, 5, 6, 7, 12])
        c = dict(agg=agg, s=s, unit=rng.choice([1, 24, 6, 10, 3600]), force=rng.random() < 0.4, half=agg == 'average' and rng.random() < 0.5,
                 instep=rng.choice([0, 1, 3, 6]), second=rng.random() < 0.3)
        c['stype'] = rng.choice(['accum', 'instant']) if agg == 'accumulation' else rng.choice(['instant', 'avg', 'instant', 'max'] + (['accum'] if rng.random() < .3 else []))
        r = rng.random()
        c['start'] = 0 if r < 0.35 else s if r < 0.6 else s * rng.randint(1, 3) + rng.choice([0, 0, 1, 2])
        c['end'] = rng.choice([steps[-1], steps[-1], c['start'] + s * rng.randint(0, 4), steps[-1] - 1])
        if c['end'] < 0:
            continue
        n = rng.randint(1, 6)
        kinds = rng.choice([['plain'], ['masked'], ['nomask'], ['plain', 'masked', 'nomask'], ['masked']])
        dt = rng.choice(['f8', 'f8', 'f4'])
        order = steps[:]
        rng.shuffle(order)
        c['msgs'] = [[t, gen_arr(rng, [n], rng.choice(kinds), dt, -100, 400, special=(0.0, -9999.0, 1e20 if dt == 'f8' else 0.0))] for t in order]
        w = windows(c)
        if w is None or len(w) > 60:
            continue
        c['nwin'] = len(w)
        if not w and rng.random() < 0.9:
            continue
        yield c


def windows(c):
    """list of (key, sources) or None when the case is outside the property's preconditions.
    sources: list of (step, weight); step None = the zero field"""
    s, start, end = c['s'], c['start'], c['end']
    have = sorted(t for t, _ in c['msgs'])
    out = []
    if c['agg'] == 'accumulation':
        if not (start == 0 or start >= s):
            return None
        first = s if start == 0 else start
        zero_at_0 = 0 not in have

        def F(t, prev):
            if prev and t == 0 and c['force']:
                return [(None, Fraction(1))]
            if t in have:
                return [(t, Fraction(1))]
            if t == 0:
                return [(None, Fraction(1))]
            h = have + ([0] if zero_at_0 and first == s else [])
            a, b = [x for x in h if x < t], [x for x in h if x > t]
            if not a or not b:
                return None
            a, b = max(a), min(b)
            f = Fraction(t - a, b - a)
            z = lambda x: None if (x == 0 and zero_at_0) else x
            return [(z(a), 1 - f), (z(b), f)]
        for t in range(first, end + 1, s):
            x, y = F(t, False), F(t - s, True)
            if x is None or y is None:
                return None
            if t - s == 0 and zero_at_0 and first != s:
                return None
            k = Fraction(c['unit'], s)
            out.append(((t - s, t), [(p, w * k) for p, w in x] + [(p, -w * k) for p, w in y]))
        return out
    if c['stype'] == 'accum':
        return 'refused' and [(None, None)]
    if c['agg'] == 'average':
        lo = start if (start == 0 or c['second']) else start - s
        if lo < 0:
            return None
        for t in range(lo, end - s + 1, s):
            if c['half']:
                used = [u for u in range(t, t + s + 1) if u in have]
                if len(used) < 2:
                    return None
                ws = [Fraction(1, 2) if u in (t, t + s) else Fraction(1) for u in used]
                tot = sum(ws)
                out.append(((t, t + s), [(u, w / tot) for u, w in zip(used, ws)]))
            else:
                src = []
                for u in range(t + 1, t + s + 1):
                    nx = [h for h in have if h >= u]
                    if not nx:
                        return None
                    src.append((min(nx), Fraction(1, s)))
                out.append(((t, t + s), src))
        return out
    first = start - s if start - s > 0 else start
    if c['stype'] == 'avg':
        first = start + c['instep']
    for t in range(first, end + 1, s):
        if t in have:
            out.append(((t, t), [(t, Fraction(1))]))
        elif t == 0:
            out.append(((t, t), []))
        else:
            nx = [h for h in have if h > t]
            if not nx:
                return None
            out.append(((t, t), [(min(nx), Fraction(1))]))
    return out


_frozen = False


def nontrivial(c):
    return c['nwin'] > 0


def run(c):
    from pyg2p import Step
    from pyg2p.main.manipulation.aggregator import Aggregator
    global _frozen
    if not _frozen:
        import gc
        gc.collect()
        gc.freeze()
        _frozen = True
    msgs = {}
    for t, a in c['msgs']:
        msgs[Step(0 if c['stype'] == 'accum' else t, t, 20, 6, 0)] = mk(a)
    before = {k: v.copy() for k, v in msgs.items()}
    ag = Aggregator(aggr_step=c['s'], aggr_type=c['agg'], aggr_halfweights=c['half'], input_step=c['instep'], step_type=c['stype'], start_step=c['start'],
                    end_step=c['end'], unit_time=c['unit'], mv_grib=-9999.0, force_zero_array=c['force'], sec_temp_res=c['second'])
    return before, msgs, ag


def check(c, what):
    """what: 'values' or 'missing'"""
    from pyg2p.exceptions import ApplicationException
    w = windows(c)
    before, msgs, ag = run(c)
    desc = f"{c['agg']} step {c['s']} from {c['start']} to {c['end']}, messages at {sorted(t for t, _ in c['msgs'])}"
    refused = c['agg'] != 'accumulation' and c['stype'] == 'accum'
    try:
        out = ag.do_manipulation(msgs)
    except ApplicationException as e:
        if refused:
            return None
        return f'{desc}: unexpectedly refused: {e}'
    except Exception as e:
        return f'{desc}: unexpected {exc(e)}'
    if refused:
        return f'{desc}: aggregation of cumulated messages was not refused' if what == 'values' else None
    byend = {t: mk(a) for t, a in c['msgs']}
    n = len(c['msgs'][0][1]['data'])
    tol = 1e-4 if c['msgs'][0][1]['dtype'] == 'f4' else 1e-8
    got = {(k.start_step, k.end_step): v for k, v in out.items()}
    if what == 'values':
        if len(out) != len(got) or set(got) != {k for k, _ in w}:
            return f'{desc}: windows {sorted(got)} instead of {sorted(k for k, _ in w)}'
        for k in out:
            if (k.resolution, k.input_step, k.level) != (20, c['s'], 0):
                return f'{desc}: window {(k.start_step, k.end_step)} has resolution {k.resolution}, step {k.input_step}, level {k.level}'
    for key, src in w:
        if key not in got:
            continue
        v = got[key]
        if np.shape(v) != (n,):
            return f'{desc}: map {key} has shape {np.shape(v)}'
        d, m = data_of(v), mask_of(v)
        for i in range(n):
            miss = any(p is not None and wt != 0 or (p is not None and c['agg'] == 'accumulation') for p, wt in src if p is not None and bool(mask_of(byend[p])[i]))
            if what == 'missing':
                if bool(m[i]) != miss:
                    return f'{desc}: cell {i} of map {key} is {"missing" if m[i] else "valid"}, messages used: {[(p, bool(mask_of(byend[p])[i])) for p, _ in src if p is not None]}'
            elif not miss and not m[i]:
                x = [(float(data_of(byend[p])[i]) if p is not None else 0.0, float(wt)) for p, wt in src]
                e = sum(a * b for a, b in x)
                mag = sum(abs(a * b) for a, b in x)
                if not abs(float(d[i]) - e) <= tol * mag + 1e-9:
                    return f'{desc} unitTime {c["unit"]} halfweights {c["half"]}: cell {i} of map {key} is {float(d[i])!r}, expected {e!r}'
            elif not miss and m[i] and not any(mask_of(byend[t]).any() for t, _ in c['msgs']):
                return f'{desc}: cell {i} of map {key} is missing although no message has missing cells'
    if set(before) != set(msgs):
        return f'{desc}: messages were added to or removed from the input'
    for k in before:
        if what == 'values' and not np.array_equal(data_of(before[k])[~mask_of(before[k])], data_of(msgs[k])[~mask_of(before[k])], equal_nan=True):
            return f'{desc}: the input message of step {k.end_step} was modified'
        if what == 'missing' and not np.array_equal(mask_of(before[k]), mask_of(msgs[k])):
            return f'{desc}: the missing cells of the input message of step {k.end_step} were modified'
    return None
