"""C20 at run time: refusal of invalid configurations by ExecutionContext, acceptance of valid ones."""
import json as j
import os
import numpy as np
from env import Env

RULE = ('random valid configurations with none, one or several faults (missing input, second input, maps, clone, DEM, command file; unknown mode, short name or conversion; level, unitTime, '
        'step or member that is no number; tstart after tend; incomplete correction); ExecutionContext of the real code')
MODES = ('grib_nearest', 'grib_invdist', 'nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay')
FAULTS = {'no -i': (1001,), 'input': (1000,), 'input2': (1000,), 'lat': (1300,), 'lon': (1300,), 'clone': (1310,), 'mode': (8400,), 'level': (1400,), 'unitTime': (1400,), 'order': (1500,),
          'partial': (4100,), 'dem': (4300,), 'shortName': (1100,), 'conversion': (1200,), 'no -c': (0,), 'command': (0,), 'cli start': (10000,), 'cli time': (10000,), 'cli format': (10000,),
          'no arguments': (10000,)}


def cases(rng, tier):
    fs = sorted(FAULTS)
    for i in range(len(fs)):
        yield make(rng, [fs[i]])
    for v in range(1, 7):
        for q in (True, False):
            c = make(rng, ['partial'])
            c['have'] = v
            yield c
    while True:
        n = rng.choice([0, 0, 1, 1, 2])
        yield make(rng, rng.sample(fs, n))


def make(rng, faults):
    s = rng.choice([None, 0, 6, 24])
    e = rng.choice([None, 24, 48, 24])
    return dict(faults=faults, mode=rng.choice(MODES), tstart=s, tend=e, where=rng.choice(['cli', 'json']), two=rng.random() < 0.3, corr=rng.random() < 0.4, conv=rng.random() < 0.4,
                level=rng.choice([None, None, 0, 10, '10', '850']), badlevel=rng.choice(['a', '1.5', '-1', 'x2']), unit=rng.choice([None, 24, '24', 6]), badunit=rng.choice(['a', '', '1h']),
                have=rng.randrange(1, 7), outdir=rng.choice(['existing', 'new', 'new/nested']), badmode=rng.choice(['foo', 'NEAREST', 'nearest ', '', 'grib']), as_dir=rng.random() < 0.3)


def check(c):
    f = set(c['faults'])
    with Env() as e:
        z = np.zeros((2, 2))
        e.maps(z, z)
        from env import write_pcr
        write_pcr(e.path('dem.map'), z)
        e.parameters({'2t': {'@description': 'temp', '@shortName': '2t', '@unit': 'K', 'Conversion': {'@id': 'k2c', '@function': 'x=x-273.15', '@unit': 'C', '@cutOffNegative': False}}})
        p, o, i = {}, {}, {'@mode': c['mode']}
        if c['conv'] or 'conversion' in f:
            p['@applyConversion'] = 'nope' if 'conversion' in f else 'k2c'
        if 'shortName' in f:
            p['@shortName'] = 'zz'
        corr = {'@correctionFormula': 'p+gem-dem*0.0065', '@gem': '(z/9.81)*0.0065', '@demMap': e.path('dem.map')}
        if 'dem' in f:
            corr['@demMap'] = e.path('nodem.map')
        if 'partial' in f:
            p.update({k: v for n, (k, v) in enumerate(sorted(corr.items())) if c['have'] >> n & 1})
        elif c['corr'] or 'dem' in f:
            p.update(corr)
        if 'level' in f:
            p['@level'] = c['badlevel']
        elif c['level'] is not None:
            p['@level'] = c['level']
        o['@unitTime'] = c['badunit'] if 'unitTime' in f else c['unit']
        if 'mode' in f:
            i['@mode'] = c['badmode']
        for k in ('lat', 'lon'):
            if k in f:
                i[f'@{k}Map'] = e.mkdir('adir') if c['as_dir'] else e.path('no.map')
        if 'clone' in f:
            o['@cloneMap'] = e.mkdir('adir') if c['as_dir'] else e.path('no.map')
        args = []
        s, t = c['tstart'], c['tend']
        if 'order' in f:
            s, t = 30, 24
        for k, v, fl in (('@tstart', s, '-s'), ('@tend', t, '-e')):
            if v is not None:
                if c['where'] == 'cli':
                    args += [fl, str(v)]
                else:
                    p[k] = v
        if 'cli start' in f:
            args += ['-s', 'abc']
        if 'cli time' in f:
            args += ['-T', '600']
        if 'cli format' in f:
            args += ['-F', 'grib']
        e.command(param=p, outmaps=o, interp=i)
        doc = j.load(open(e.path('cmd.json')))
        if doc['Execution']['OutMaps'].get('@unitTime') is None:
            del doc['Execution']['OutMaps']['@unitTime']
        j.dump(doc, open(e.path('cmd.json'), 'w'))
        open(e.path('in.grib'), 'wb').close()
        open(e.path('in2.grib'), 'wb').close()
        if 'no -i' not in f:
            args += ['-i', e.path('none.grib') if 'input' in f else e.path('in.grib')]
        if c['two'] or 'input2' in f:
            args += ['-I', e.path('none.grib') if 'input2' in f else e.path('in2.grib')]
        if 'no -c' not in f:
            args += ['-c', e.path('nocmd.json' if 'command' in f else 'cmd.json')]
        out = e.out if c['outdir'] == 'existing' else e.path(c['outdir'])
        args += ['-o', out]
        if 'no arguments' in f:
            args = []
        from pyg2p.main.context import ExecutionContext
        from pyg2p.exceptions import ApplicationException
        e.reset_process_state()
        err = None
        try:
            ctx = ExecutionContext(args)
        except ApplicationException as ex:
            err = ex
        except Exception as ex:
            return f'faults {sorted(f)}: {type(ex).__name__} {ex} instead of {"an application error" if f else "acceptance"}'
        if not f:
            if err is not None:
                return f'a valid configuration is refused: {err.code} {err}'
            if not os.path.isdir(out):
                return 'the output folder does not exist'
            return None
        if err is None:
            return f'accepted with faults {sorted(f)}'
        ok = {x for n in f for x in FAULTS[n]}
        if 'no arguments' in f:
            ok = {10000}
        if 'no -c' in f or 'command' in f:
            ok |= {0}
        if err.code not in ok:
            return f'faults {sorted(f)} have the error {err.code} {err}'
        for d, _, fs in os.walk(e.out):
            if fs:
                return f'files were written by a refused run: {fs}'
    return None
