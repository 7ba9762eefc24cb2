"""C19 at run time: effective execution parameters of ExecutionContext for command lines and JSON command files."""
import importlib.util
import os
from env import Env
import numpy as np

_s = importlib.util.spec_from_file_location('vc_options', os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts', 'options.py'))
O = importlib.util.module_from_spec(_s)
_s.loader.exec_module(O)
RULE = ('random subsets of the options on the command line (short or long flag) and in the JSON file with random values (0, the default and values equal in both places included); '
        'aggregation settings; ExecutionContext of the real code read back with get()')


def value(rng, kind, default):
    if kind == 'int':
        return rng.choice([0, 1, 2, 3, 7, 24, 240, 20190101])
    if kind == 'posint':
        return rng.choice([1, 2, 3, 6, 24])
    if kind == 'time':
        return rng.choice([0, 1200])
    if kind == 'format':
        return rng.choice(['pcraster', 'netcdf'])
    if kind == 'posnum':
        return rng.choice([1, 0.1, 2, 10.5])
    if kind == 'num':
        return rng.choice([0, 1, -1.5, 273.15, 5])
    if kind == 'dir':
        return '/vc/' + rng.choice('abc')
    if kind == 'bool':
        return rng.choice([True, False])
    if kind == 'mode':
        return rng.choice(O.MODES)
    if kind == 'level':
        return rng.choice(['ERROR', 'WARNING', 'INFO', 'DEBUG'])
    return rng.choice(['x', 'pf', 'i2', 'h', 'notset', 'abc def'])


def cases(rng, tier):
    i = 0
    while True:
        i += 1
        p = rng.choice([0.1, 0.5, 0.9])
        c = dict(cli={}, json={}, long=rng.random() < 0.5, agg=None, place=rng.choice(['Execution', 'Interpolation']))
        only = rng.choice(O.BOTH)[0] if rng.random() < 0.3 else None
        for k, fl, sec, att, kind, d in O.BOTH:
            if only and k != only:
                continue
            if rng.random() < p:
                c['cli'][k] = value(rng, kind, d)
            if rng.random() < p:
                c['json'][k] = value(rng, kind, d)
        for k, sec, att, kind, d in O.JSON:
            if rng.random() < p:
                c['json'][k] = value(rng, kind, d)
        for k, fl, kind, d in O.CLI:
            if rng.random() < p:
                c['cli'][k] = value(rng, kind, d) if kind != 'flag' else True
        if rng.random() < 0.6:
            a = dict(step=rng.choice([6, 12, 24]), type=rng.choice(['average', 'accumulation', 'instantaneous']))
            if rng.random() < 0.7:
                a['halfweights'] = rng.choice([True, False, 'true', 'True', 'false', 'False'])
            if rng.random() < 0.7:
                a['forceZeroArray'] = rng.choice(['y', 'yes', 'true', True, False, 'true', 'false', 'False', 'FALSE', 'no', 'NO', 'No', '0'])
            c['agg'] = a
        # an execution with tstart > tend is refused (C20)
        eff = {k: c['cli'].get(k, c['json'].get(k)) for k in ('parameter.tstart', 'parameter.tend')}
        if None not in eff.values() and eff['parameter.tstart'] > eff['parameter.tend']:
            continue
        yield c


def same(got, want, kind):
    if want is None:
        return got is None
    if got is None:
        return False
    if kind in ('int', 'posint', 'time'):
        return not isinstance(got, (str, bool)) and got == want
    if kind in ('num', 'posnum'):
        try:
            return float(got) == float(want)
        except (TypeError, ValueError):
            return False
    if kind in ('bool', 'flag'):
        return bool(got) == want and isinstance(got, bool)
    return got == want


def check(c):
    with Env() as e:
        e.maps(np.zeros((2, 2)), np.zeros((2, 2)))
        secs = {'Parameter': {}, 'OutMaps': {}, 'Interpolation': {}, 'Execution': {}}
        args = []
        for k, fl, sec, att, kind, d in O.BOTH:
            if k in c['json']:
                secs[c['place'] if '|' in sec else sec][att] = c['json'][k]
            if k in c['cli']:
                v = c['cli'][k]
                args += [f'{fl[1]}={v}'] if c['long'] else ([fl[0], str(v)] if not str(v).startswith('-') else [f'{fl[1]}={v}'])
        for k, sec, att, kind, d in O.JSON:
            if k in c['json']:
                secs[sec][att] = c['json'][k]
        for k, fl, kind, d in O.CLI:
            if k in c['cli']:
                args += [fl[1] if c['long'] else fl[0]] + ([] if kind == 'flag' else [c['cli'][k]])
        agg = {'@' + k: v for k, v in c['agg'].items()} if c['agg'] else None
        e.command(mode=c['json'].get('interpolation.mode', 'nearest'), param=secs['Parameter'], outmaps=secs['OutMaps'], interp=secs['Interpolation'], aggregation=agg, execution=secs['Execution'])
        import json as j
        p = e.path('cmd.json')
        doc = j.load(open(p))
        om = doc['Execution']['OutMaps']
        if 'outMaps.namePrefix' not in c['json']:
            del om['@namePrefix']
        if 'outMaps.unitTime' not in c['json']:
            del om['@unitTime']
        if 'interpolation.mode' not in c['json']:
            del om['Interpolation']['@mode']
        j.dump(doc, open(p, 'w'))
        if 'input.file2' in c['cli']:
            open(c['cli']['input.file2'], 'wb').close()
        if 'logger.level' not in c['cli']:
            args += ['-l', 'INFO']
        from pyg2p.main.context import ExecutionContext
        e.reset_process_state()
        open(e.path('in.grib'), 'wb').close()
        try:
            ctx = ExecutionContext(['-c', p, '-i', e.path('in.grib'), '-o', e.out] + args)
        except Exception as ex:
            return f'a valid configuration is refused: {type(ex).__name__} {ex}; arguments {args}, file {doc}'
        for k, fl, sec, att, kind, d in O.BOTH:
            dflt = {'interpolation.dirs': e.user, 'geopotential.dirs': e.geo, 'outMaps.namePrefix': '2t'}.get(k, d)
            want = c['cli'][k] if k in c['cli'] else c['json'].get(k, dflt)
            got = ctx.get(k)
            if kind == 'dir':
                got = got['user']
            if not same(got, want, kind):
                return f'{k} is {got!r}, not {want!r}: command line {c["cli"].get(k)!r}, JSON {c["json"].get(k)!r}, default {dflt!r}'
        for k, sec, att, kind, d in O.JSON:
            want = c['json'].get(k, d)
            if not same(ctx.get(k), want, kind):
                return f'{k} is {ctx.get(k)!r}, not {want!r} (JSON {c["json"].get(k)!r})'
        for k, fl, kind, d in O.CLI:
            want = c['cli'].get(k, d)
            if not same(ctx.get(k), want, kind):
                return f'{k} is {ctx.get(k)!r}, not {want!r}'
        if ctx.get('input.file') != e.path('in.grib') or ctx.get('parameter.shortName') != '2t':
            return 'input file or short name changed'
        if ctx.is_2_input_files != ('input.file2' in c['cli']):
            return 'the second input file is not noticed as given or not'
        a = c['agg'] or {}
        if bool(ctx.must_do_aggregation) != bool(a):
            return f'aggregation {ctx.must_do_aggregation} with {a}'
        if a:
            if ctx.get('aggregation.step') != a['step'] or ctx.get('aggregation.type') != a['type']:
                return 'aggregation step or type changed'
            hw = a.get('halfweights', False)
            hw = hw if isinstance(hw, bool) else hw.lower() == 'true'
            if bool(ctx.get('aggregation.halfweights')) != hw:
                return f"halfweights {a.get('halfweights')!r} is taken as {ctx.get('aggregation.halfweights')!r}"
            fz = a.get('forceZeroArray', False)
            fz = fz if isinstance(fz, bool) else fz not in O.FALSE
            fz = fz and a['type'] == 'accumulation'
            if bool(ctx.get('aggregation.forceZeroArray')) != fz:
                return f"forceZeroArray {a.get('forceZeroArray')!r} with {a['type']} is taken as {ctx.get('aggregation.forceZeroArray')!r}"
    return None
