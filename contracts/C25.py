"""C25 contracts: Controller.init_execution/execute/read_2nd_res_messages/second_res_manipulation and Context.create_select_cmd_*; the stages by their contracts (C01-C06, C14, C16-C18)."""
from contracts.interp import *
from contracts.conf import Opaque
from pyvc.syms import SStr
from pyvc.containers import iterm as iterm_

ASSUMPTIONS = [
    'the stages are stand-ins that record what they are given (their own contracts: C01-C05, C14, C15, C16-C18)',
    'up to three steps of the first and two of the second resolution, at any steps (order by branching)',
]


class V:
    """values of a step"""

    def __init__(self, what):
        self.what = what


def world_(e):
    e.state['open'] = world.open_
    L = loader()
    P = L.load('pyg2p')
    CT = L.load('pyg2p.main.controller')
    CX = L.load('pyg2p.main.context')
    return L, P, CT, CX


def steps(e, P, n, what, res):
    out = VDict([])
    ends = []
    for i in range(n):
        s = t = sint_(e, f'{what} end {i}')
        e.assume(zand(s.t >= 0, *[znot(t.t == x.t) for x in ends]))
        ends.append(t)
        out[P.Step(s, t, res, 6, 0)] = V((what, i))
    return out


def optint(e, name, lo=0):
    if not e.choose(2):
        return None
    v = sint_(e, name)
    e.assume(v.t >= lo)
    return v


def eqv(a, b):
    if a is None or b is None:
        return T if a is b else F
    if isinstance(a, (SInt, SReal, SStr, SBool, int, float, str)) and isinstance(b, (SInt, SReal, SStr, SBool, int, float, str)):
        return zb(a == b) if isinstance(a, (str, SStr)) == isinstance(b, (str, SStr)) else F
    return T if a is b else F


class Run:
    """a run with recorded stages"""

    def __init__(self, e, agg, conv, corr, two, opts=False, n1=1, n2=1):
        self.e = e
        L, P, CT, CX = world_(e)
        self.P, self.CT = P, CT
        self.log = log = []
        self.agg, self.conv, self.corr, self.two = agg, conv, corr, two
        self.info = Opaque(end=sint_(e, 'last step of the file'), input_step=sint_(e, 'input step'), mv=sreal_(e, 'mv'), type_of_param='instant', start=sint_(e, 'first step'))
        e.assume(self.info.end.t >= 0)
        self.first0 = steps(e, P, n1, 'first', 10)
        self.second0 = steps(e, P, n2, 'second', 20) if two else VDict([])
        self.agg1 = steps(e, P, n1, 'agg1', 10)
        self.agg2 = steps(e, P, n2, 'agg2', 20)
        self.items = {n: list(getattr(self, n).items()) for n in ('first0', 'second0', 'agg1', 'agg2')}
        self.change = None
        if two:
            s, t = sint_(e, 'change start'), sint_(e, 'change end')
            e.assume(zand(s.t >= 0, s.t <= t.t))
            self.change = P.Step(s, t, 20, 6, 0)
        self.meth = corr if opts else False
        self.hasgeo = bool(e.choose(2)) if corr else False
        self.real = (sint_(e, 'real start'), sint_(e, 'real end'))
        v = {'logger.level': 'ERROR', 'input.file': '/in/1', 'input.file2': '/in/2' if two else None, 'input.two_resolution': two, 'execution.doAggregation': agg, 'execution.doConversion': conv,
             'execution.doCorrection': corr, 'aggregation.type': 'average', 'aggregation.halfweights': SBool(e.fresh(core.B, 'half')), 'aggregation.forceZeroArray': SBool(e.fresh(core.B, 'zero')),
             'outMaps.unitTime': sint_(e, 'unitTime'), 'interpolation.mode': 'grib_nearest' if self.meth else 'nearest', 'parameter.conversionFunction': 'x=x*2', 'parameter.shortName': SStr(e.fresh(world.S, 'shortName')),
             'parameter.cutoffnegative': bool(e.choose(2)) if conv else None, 'parameter.tstart': optint(e, 'tstart'), 'parameter.tend': optint(e, 'tend'), 'aggregation.step': sint_(e, 'agg step')}
        e.assume(v['aggregation.step'].t >= 1)
        crit = ('level', 'dataTime', 'dataDate', 'perturbationNumber')
        pick = e.choose(6) if opts else 5
        for i, k in enumerate(crit):
            v['parameter.' + k] = None
            if pick == i or pick == 4:
                v['parameter.' + k] = sint_(e, k)
                e.assume(v['parameter.' + k].t >= 0)
        if v['parameter.tstart'] is not None and v['parameter.tend'] is not None:
            e.assume(v['parameter.tstart'].t <= v['parameter.tend'].t)
        ctx = CX.Context.__new__(CX.Context)
        ctx.input_file_with_geopotential = None
        ctx._vars = v
        self.ctx, self.v = ctx, v
        run = self

        class Messages:
            step_type = 'accum'
            state = 'raw'

            def append_2nd_res_messages(self, m):
                log.append(('append', m))

            def apply_conversion(self, c):
                log.append(('convert', c))

            def first_resolution_values(self):
                log.append(('first',))
                return run.first0

            def second_resolution_values(self):
                log.append(('second',))
                return run.second0

            def have_resolution_change(self):
                return two

            def change_resolution_step(self):
                if not two:
                    raise AttributeError('no change of resolution')
                return run.change
        self.messages, self.messages2 = Messages(), Messages()

        class Reader:
            def __init__(self, path, w_perturb=False):
                log.append(('open', path, w_perturb))
                self.second = path == '/in/2'

            def get_grib_info(self, sel):
                log.append(('info', sel))
                return run.info

            def has_geopotential(self):
                return run.hasgeo

            def select_messages(self, **k):
                log.append(('select2' if self.second else 'select', k))
                return run.messages2 if self.second else run.messages

            def set_2nd_aux(self, a):
                log.append(('aux2', a, self.second))

            def get_main_aux(self):
                return ('aux of', self.second)

            def get_gids_for_grib_intertable(self):
                log.append(('gids', self.second))
                return 'g', 'v', 'g2', 'v2'

        class Aggregator:
            def __init__(self, **k):
                self.second = any(x[0] == 'aggregator' for x in log)
                log.append(('aggregator', k))

            def get_real_start_end_steps(self):
                return run.real

            def change_end_step(self, s):
                log.append(('change', s, self.second))

            def do_manipulation(self, values):
                log.append(('aggregate', values, self.second))
                return run.agg2 if self.second else run.agg1

        class Converter:
            def __init__(self, func=None, cut_off=None):
                self.args = (func, cut_off)
                self.must_cut_off = cut_off

            def cut_off_negative(self, values):
                out = VDict([(k, V(('cut', x))) for k, x in values.items()])
                log.append(('cut', values, out))
                return out

        class Writer:
            def __init__(self, ctx, info):
                log.append(('writer', ctx, info))

            def aux_for_intertable_generation(self, *a):
                log.append(('writeraux', a))

            def write_maps(self, values, messages, change_res_step=None):
                log.append(('write', values, messages, change_res_step))
        CT.GRIBReader, CT.OutputWriter, CT.Aggregator, CT.Converter = Reader, Writer, Aggregator, Converter
        self.c = CT.Controller(ctx)

    def got(self, what):
        return [x for x in self.log if x[0] == what]

    def at(self, what, n=0):
        i = [k for k, x in enumerate(self.log) if x[0] == what]
        return i[n] if len(i) > n else None


def go(e, r, **k):
    e.cover('pre')
    out, ex = call(r.c.execute, **k)
    e.prove('a run whose stages complete does not fail', ex is None, extxt(ex))
    if ex is not None:
        raise PathEnd()
    return out


def inrange(kw, lo, hi):
    """term: a message with these steps (s, t) is selected by kw exactly when lo <= s and t <= hi (a single step: both equal it)"""
    e = eng()
    s, t = SInt(e.fresh(core.Z, 'message start')), SInt(e.fresh(core.Z, 'message end'))
    e.assume(zand(s.t >= 0, s.t <= t.t))

    def ok(c, x):
        r = c(x) if callable(c) else c == x
        return zb(r)
    if set(kw) < {'startStep', 'endStep'}:
        return F
    return zand(ok(kw['startStep'], s), ok(kw['endStep'], t)) == zand(s.t >= iterm_(lo), t.t <= iterm_(hi), zimp(iterm_(lo) == iterm_(hi), zand(s.t == iterm_(lo), t.t == iterm_(hi))))


def wanted_range(r):
    v = r.v
    if r.agg:
        return r.real
    return (v['parameter.tstart'] if v['parameter.tstart'] is not None else 0), (v['parameter.tend'] if v['parameter.tend'] is not None else r.info.end)


def selection(e):
    """what is read: the configured parameter and range, from one or two files"""
    agg, two = bool(e.choose(2)), bool(e.choose(2))
    r = Run(e, agg, False, bool(e.choose(2)), two, opts=True)
    r.meth = bool(e.choose(2))
    r.v['interpolation.mode'] = 'grib_invdist' if r.meth else 'nearest'
    go(e, r)
    v = r.v
    pert = v['parameter.perturbationNumber']
    op = r.got('open')
    e.prove('the input files are opened, with members exactly when one is asked for', [x[1] for x in op] == ['/in/1'] + ['/in/2'] * two and all(bool(x[2]) == (pert is not None) for x in op), str(op))
    sel = r.got('info')
    e.prove('the file is surveyed for the parameter (and member) of the run', len(sel) == 1 and zand(zb(sel[0][1]['shortName'] == v['parameter.shortName']), eqv(sel[0][1].get('perturbationNumber'), pert)) if sel else F)
    lo, hi = wanted_range(r)
    for what in ['select'] + ['select2'] * two:
        k = r.got(what)
        e.prove('each file is read once', len(k) == 1, str(len(k)))
        if len(k) != 1:
            continue
        kw = k[0][1]
        e.prove('messages of the step range are selected, and no others', inrange(kw, lo, hi))
        names = kw.get('shortName')
        names = names if isinstance(names, (list, tuple)) else [names]
        n = v['parameter.shortName']
        want = [n.t, n.upper().t, (n + 'var').t]
        e.prove('messages of the parameter (as given, in capitals, or with suffix var) are selected, and no others', zand(*[zor(*[SStr.of(x).t == w for w in want]) for x in names], *[zor(*[SStr.of(x).t == w for x in names]) for w in want]), str(names))
        for c in ('level', 'dataTime', 'dataDate', 'perturbationNumber'):
            e.prove(f'{c} is a criterion exactly when given', eqv(kw.get(c), v['parameter.' + c]), f'{kw.get(c)!r}')
        e.prove('there is no other criterion', set(kw) <= {'shortName', 'startStep', 'endStep', 'level', 'dataTime', 'dataDate', 'perturbationNumber'}, str(list(kw)))
    if two:
        a = r.got('append')
        e.prove('the messages of the second file are added to those of the first', len(a) == 1 and a[0][1] is r.messages2)
        x = r.got('aux2')
        e.prove('the first message of the second file is used to build its table', x == [('aux2', ('aux of', True), False)], str(x))
        e.cover('two files')
    g = r.got('writeraux')
    e.prove('GRIB messages reach the writer when the tables are built from them', g == ([('writeraux', ('g', 'v', 'g2', 'v2'))] if r.meth else []), str(g))
    if r.got('gids') and r.meth:
        e.prove('the messages for tables are taken from the main file after the second is known', not r.got('gids')[-1][1] and (not two or r.at('aux2') < r.at('gids')))
    w = r.got('writer')
    e.prove('the writer gets the configuration and what is known of the file', len(w) == 1 and w[0][1] is r.ctx and w[0][2] is r.info)
    e.prove('the geopotential of the input file is used exactly when a correction needs it and it has one', eqv(r.ctx.input_file_with_geopotential, '/in/1' if r.corr and r.hasgeo else None))
    e.cover('post')


def same_steps(e, got, want, what):
    """got (an ordered dict) holds exactly the entries of want [(step, value)], in increasing order of the end step"""
    items = list(got.items())
    e.prove(f'{what}: exactly the steps computed', len(items) == len(want) and all(any(k is s for s, _ in want) for k, _ in items), f'{len(items)} {len(want)}')
    for k, x in items:
        for s, y in want:
            if k is s:
                e.prove(f'{what}: each step with its own values', x is y or (isinstance(x, V) and isinstance(y, tuple) and x.what[0] == 'cut' and x.what[1] is y[1]), f'{x} {y}')
    for (a, _), (b, _) in zip(items, items[1:]):
        e.prove(f'{what}: in order of the end of the steps', zb(a.end_step <= b.end_step))


def order(agg, two):
    def h(e):
        conv = bool(e.choose(2))
        n1, n2 = ((1, 1), (2, 1), (2, 2))[e.choose(3)] if two else (1 + e.choose(3), 1)
        r = Run(e, agg, conv, False, two, n1=n1, n2=n2)
        if two:
            # the steps of the two resolutions differ
            for A, B_ in ((r.first0, r.second0), (r.agg1, r.agg2)):
                for a in A.keys():
                    for b in B_.keys():
                        e.assume(znot(a.end_step.t == b.end_step.t))
        write = bool(e.choose(2)) if n1 == n2 == 1 else True
        out = go(e, r, **({} if write else dict(write_results=False)))
        v = r.v
        ks = r.got('convert')
        e.prove('units are converted exactly when configured, once, with the function and cut-off of the conversion', len(ks) == (1 if conv else 0) and all(k[1].args == ('x=x*2', v['parameter.cutoffnegative']) for k in ks), str(ks))
        if conv:
            e.prove('units are converted before anything is computed', all(i > r.at('convert') for i, x in enumerate(r.log) if x[0] in ('first', 'second', 'aggregate')))
            e.prove('messages of both files are converted', not two or r.at('append') < r.at('convert'))
        ag = r.got('aggregator')
        base = dict(aggr_step=v['aggregation.step'], aggr_type='average', aggr_halfweights=v['aggregation.halfweights'], input_step=r.info.input_step, mv_grib=r.info.mv,
                    unit_time=v['outMaps.unitTime'], force_zero_array=v['aggregation.forceZeroArray'])
        end = v['parameter.tend'] if v['parameter.tend'] is not None else r.info.end
        want = list(r.items['first0'])
        change = None
        if not agg:
            e.prove('nothing is aggregated unless configured', not ag)
            if two:
                want += r.items['second0']
                change = r.change
        else:
            exp = dict(base, start_step=v['parameter.tstart'] if v['parameter.tstart'] is not None else 0, end_step=end, step_type='instant')
            e.prove('aggregation as configured', len(ag) >= 1 and set(ag[0][1]) == set(exp) and zand(*[eqv(ag[0][1][k], exp[k]) for k in exp]), str(ag[:1]))
            d = [x for x in r.got('aggregate') if not x[2]]
            e.prove('the messages of the first resolution are aggregated, once', len(d) == 1 and d[0][1] is r.first0)
            want = list(r.items['agg1'])
            ch = r.got('change')
            if not two:
                e.prove('the end of the range is kept', not ch and len(ag) == 1)
            else:
                e.prove('the first resolution ends where the second begins', len(ch) == 1 and not ch[0][2] and zand(eqv(ch[0][1], r.change.start_step)) and r.at('change') < r.at('aggregate'), str(ch))
                change = r.change
                s2 = r.change.end_step + v['aggregation.step']
                end = r.real[1]
                if e.branch(zb(end > s2)):
                    exp = dict(base, start_step=s2, end_step=end, step_type='accum')
                    e.prove('the second resolution is aggregated as configured from the change of resolution on', len(ag) == 2 and set(ag[1][1]) == set(exp) and zand(*[eqv(ag[1][1][k], exp[k]) for k in exp]), str(ag[1:]))
                    d = [x for x in r.got('aggregate') if x[2]]
                    e.prove('the messages of the second resolution are aggregated, once', len(d) == 1 and d[0][1] is r.second0)
                    want += r.items['agg2']
                    change = 'agg2'
                    e.cover('second aggregated')
                else:
                    e.prove('no window of the second resolution fits', len(ag) == 1)
        cut = r.got('cut')
        must = conv and v['parameter.cutoffnegative']
        e.prove('negative values are cut exactly when the conversion asks for it', len(cut) == (1 if must else 0))
        if must and cut:
            e.prove('negative values are cut after the aggregation', all(i < r.at('cut') for i, x in enumerate(r.log) if x[0] == 'aggregate'))
            want = [(k, ('cut', x)) for k, x in want]
        wr = r.got('write')
        e.prove('the maps are written once (not at all for the API)', len(wr) == (1 if write else 0))
        seen = ([(wr[0][1], wr[0][2], wr[0][3])] if wr else []) + [out]
        for vals, ms, cs in seen:
            same_steps(e, vals, want, 'written' if wr else 'returned')
            e.prove('with the messages they come from', ms is r.messages)
            if isinstance(change, str):
                e.prove('the first step of the second resolution is marked', any(cs is k for k in r.agg2.keys()) and zand(*[zb(cs.end_step <= k.end_step) for k in r.agg2.keys()]))
            else:
                e.prove('the first step of the second resolution is marked', cs is change)
        e.cover('post')
    return h


def vcs(tier):
    out = [dict(name='selection', harness=selection, covers=['pre', 'post', 'two files'])]
    for a in (False, True):
        for t in (False, True):
            out.append(dict(name=f'order[{"aggregation" if a else "no aggregation"}, {"two resolutions" if t else "one resolution"}]', harness=order(a, t), covers=['pre', 'post'] + ['second aggregated'] * (a and t)))
    return out
