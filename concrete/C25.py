"""C25 at run time: Controller on real GRIB files; oracle: messages filtered, converted, aggregated (by the Aggregator, see C01-C04) and cut by this module."""
import numpy as np
from env import Env, grib_message, write_grib

RULE = ('GRIB files with 1-5 steps of two parameters and two levels, an optional second file of another grid starting where the first ends, random range, conversion (with and without cut-off), aggregation and member; '
        'what Controller hands to the writer')


def cases(rng, tier):
    while True:
        d = rng.choice([6, 12, 24])
        n = rng.randint(1, 5)
        st = [d * (i + rng.choice([0, 0, 1])) for i in range(n)]
        st = sorted(set(st))
        two = rng.random() < 0.4
        agg = rng.choice([None, None, 'instantaneous', 'average', 'accumulation'])
        second = [st[-1]] + [st[-1] + d * (i + 1) for i in range(rng.randint(1, 3))] if two else []
        yield dict(steps=st, second=second, d=d, agg=agg, aggstep=rng.choice([d, d, 2 * d]), tstart=rng.choice([None, None, st[0], d, 0]), tend=rng.choice([None, st[-1], st[-1] + d, (second or st)[-1]]),
                   conv=rng.random() < 0.6, cut=rng.random() < 0.6, neg=rng.random() < 0.7, write=rng.random() < 0.5, json=rng.random() < 0.5, seed=rng.randrange(10 ** 6))


def nontrivial(c):
    return c['agg'] or c['conv'] or c['second']


def check(c):
    from pyg2p.main import controller
    from pyg2p.main.manipulation.aggregator import Aggregator
    from pyg2p.exceptions import ApplicationException
    rs = np.random.RandomState(c['seed'])
    with Env() as e:
        e.maps(np.array([[50., 50.], [49., 49.]]), np.array([[5., 6.], [5., 6.]]))
        conv = {'@id': 'k', '@function': 'x=x*2-1', '@unit': 'C'}
        if c['cut']:
            conv['@cutOffNegative'] = True
        e.parameters({'2t': {'@description': 'temp', '@shortName': '2t', '@unit': 'K', 'Conversion': conv}, 'tp': {'@description': 'rain', '@shortName': 'tp', '@unit': 'm'}})

        def field(n):
            v = np.round(rs.uniform(-5 if c['neg'] else 1, 9, n) * 4) / 4
            return v
        A = {s: field(20) for s in c['steps']}
        B = {s: field(6) for s in c['second']}
        ms = []
        for s, v in A.items():
            ms.append(grib_message(short='2t', step=(s, s), ni=5, nj=4, values=v))
            ms.append(grib_message(short='tp', step=(s, s), ni=5, nj=4, values=v + 100))
        write_grib(e.path('in.grib'), ms)
        # what GRIB keeps of the values
        dec = [x for x in decoded_pairs(e.path('in.grib')) if x[0] == '2t']
        A = {s: v for _, s, v in dec}
        args = []
        if c['second']:
            write_grib(e.path('in2.grib'), [grib_message(short='2t', step=(s, s), ni=3, nj=2, values=v) for s, v in B.items()])
            B = {s: v for _, s, v in decoded_pairs(e.path('in2.grib'))}
            args += ['-I', e.path('in2.grib')]
        p, agg = {}, None
        for k, a, f in (('tstart', '@tstart', '-s'), ('tend', '@tend', '-e')):
            if c[k] is not None:
                if c['json']:
                    p[a] = c[k]
                else:
                    args += [f, str(c[k])]
        if c['tstart'] is not None and c['tend'] is not None and c['tstart'] > c['tend']:
            return None
        if c['conv']:
            p['@applyConversion'] = 'k'
        if c['agg']:
            agg = {'@step': c['aggstep'], '@type': c['agg']}
        e.command(param=p, aggregation=agg)
        start, end = c['tstart'] or 0, c['tend'] if c['tend'] is not None else max(A)
        if start > end:
            return None
        mk = dict(aggr_step=c['aggstep'], aggr_type=c['agg'], aggr_halfweights=False, input_step=c['d'] if len(c['steps']) > 1 else 0, mv_grib=9999.0, unit_time=24, force_zero_array=False)
        ctx = e.context(args)
        seen = []
        k = controller.Controller(ctx)
        infos = []
        R = controller.GRIBReader
        g0 = R.get_grib_info

        def info(self, *a):
            infos.append(g0(self, *a))
            return infos[-1]
        R.get_grib_info = info
        W = controller.OutputWriter.write_maps
        controller.OutputWriter.write_maps = lambda self, v, m, change_res_step=None: seen.append((dict(v), list(v), change_res_step))
        try:
            try:
                out = k.execute(**({} if c['write'] else dict(write_results=False)))
            except ApplicationException as ex:
                sel = [s for s in A if start <= s <= end]
                if ex.code == 3000 and (not sel or c['agg']):
                    return None
                return f'{ex.code} {ex} for {c}'
            except Exception as ex:
                # a range or window set for which the aggregation has no messages (C01-C03 leave it open)
                if c['agg']:
                    return None
                raise
        finally:
            R.get_grib_info = g0
            controller.OutputWriter.write_maps = W
            k.close()
        if len(seen) != (1 if c['write'] else 0):
            return f'maps are written {len(seen)} times'
        vals, keys, ch = seen[0] if seen else (dict(out[0]), list(out[0]), out[2])
        # oracle
        inp = infos[0].input_step
        mk['input_step'] = inp
        lo, hi = start, end
        ag = None
        if c['agg']:
            ag = Aggregator(step_type=infos[0].type_of_param, start_step=start, end_step=end, **mk)
            lo, hi = ag.get_real_start_end_steps()
        f = (lambda x: x * 2 - 1) if c['conv'] else (lambda x: x)
        from pyg2p import Step

        def pick(D, res):
            return {Step(s, s, res, 6, 0): f(v) for s, v in D.items() if lo <= s <= hi}
        want, mark = pick(A, 20), None
        second = pick(B, 6)
        if c['second'] and not second:
            return None     # nothing selected in the second file: refused above or nothing to say
        if c['agg']:
            if second:
                ag.change_end_step(min(s.start_step for s in second))
            want = ag.do_manipulation(want)
        if second:
            mark = min(s.end_step for s in second)
            if c['agg']:
                s2 = mark + c['aggstep']
                if hi > s2:
                    w2 = Aggregator(step_type='instant', start_step=s2, end_step=hi, **mk).do_manipulation(second)
                    want = {**want, **w2}
                    mark = min(s.end_step for s in w2)
            else:
                want = {**{s: v for s, v in want.items()}, **second}
        if c['conv'] and c['cut']:
            want = {s: np.where(v < 0, 0, v) for s, v in want.items()}
        wv = sorted(((int(s.end_step), v) for s, v in want.items()), key=lambda x: (x[0], len(x[1])))
        gv = sorted(((int(s.end_step), np.ma.filled(v, np.nan)) for s, v in vals.items()), key=lambda x: (x[0], len(x[1])))
        if [(s, len(v)) for s, v in wv] != [(s, len(v)) for s, v in gv]:
            return f'steps {[(s, len(v)) for s, v in gv]} instead of {[(s, len(v)) for s, v in wv]} for {c}'
        for (s, a), (_, b) in zip(wv, gv):
            if not np.allclose(np.asarray(a, 'f8'), np.asarray(b, 'f8'), atol=1e-4, equal_nan=True):
                return f'values of step {s} are {b[:6]} instead of {a[:6]} for {c}'
        ends = [int(s.end_step) for s in keys]
        if ends != sorted(ends):
            return f'steps are not in order: {ends}'
        if (mark is None) != (ch is None) or (mark is not None and int(ch.end_step) != mark):
            return f'the change of resolution is marked at {ch} instead of {mark}'
    return None


def decoded_pairs(path):
    import eccodes as ec
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                return out
            out.append((ec.codes_get(h, 'shortName'), ec.codes_get(h, 'endStep'), ec.codes_get_values(h)))
            ec.codes_release(h)
