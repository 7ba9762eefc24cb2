"""C21 at run time: exit codes, closing and configuration commands through pyg2p_exe."""
import json as j
import os
import shutil
import numpy as np
from env import Env, grib_message, write_grib, save_scipy_table

RULE = ('runs of pyg2p_exe on small GRIB files: completing, without matching messages, without table, geopotential or parameters, with an application error injected at one of eleven stages, '
        'both output formats; -g, -K and -W (FTP stand-in) in success and failure')
STAGES = ('open', 'info', 'writer', 'select', 'convert', 'aggregate', 'write', 'interpolate', 'correct', 'log', 'second')
CODES = (0, 1000, 1001, 1100, 1200, 1300, 1310, 1320, 1400, 1500, 3000, 4000, 4100, 4200, 4300, 5000, 6000, 6100, 7001, 7003, 8000, 8100, 8200, 8300, 8400, 8500, 8600, 8700, 9000, 10000)


def cases(rng, tier):
    fixed = []
    for fmt in ('pcraster', 'netcdf'):
        for kind in ('ok', 'no messages', 'no member', 'no table', 'no geopotential', 'no file', 'bad json', 'no parameter', 'bad args', 'no dem', 'ok correction', 'ok second', 'no messages second', 'no range'):
            fixed.append(dict(kind=kind, fmt=fmt))
        for s in STAGES:
            for code in (3000, 1100):
                fixed.append(dict(kind='fault', stage=s, code=code, fmt=fmt, agg=s == 'aggregate'))
    for k in ('g ok', 'g twice', 'g missing', 'g no path', 'g not geopotential', 'g dir', 'K clean', 'K mixed', 'K gz', 'W tables', 'W geo', 'W fail'):
        fixed.append(dict(kind=k, fmt='pcraster'))
    rng.shuffle(fixed)
    yield from fixed
    while True:
        yield dict(kind='fault', stage=rng.choice(STAGES), code=rng.choice(CODES), fmt=rng.choice(['pcraster', 'netcdf']), agg=rng.random() < 0.3)


class Patches:
    def __init__(self):
        self.old = []

    def set(self, o, n, v):
        self.old.append((o, n, o.__dict__.get(n, getattr(o, n))))
        setattr(o, n, v)

    def undo(self):
        for o, n, v in reversed(self.old):
            setattr(o, n, v)


def check(c):
    from pyg2p.exceptions import ApplicationException
    import pyg2p.main as M
    from pyg2p.main import config, controller
    from pyg2p.main.readers import grib as rg
    with Env() as e:
        e.reset_process_state()
        lat, lon = np.array([[50., 50.], [49., 49.]]), np.array([[5., 6.], [5., 6.]])
        e.maps(lat, lon)
        from env import write_pcr
        write_pcr(e.path('dem.map'), np.ones((2, 2)))
        e.parameters({'2t': {'@description': 'temp', '@shortName': '2t', '@unit': 'K', 'Conversion': {'@id': 'k', '@function': 'x=x+1', '@unit': 'C', '@cutOffNegative': True}},
                      'tp': {'@description': 'rain', '@shortName': 'tp', '@unit': 'm'}})
        kind = c['kind']
        msgs = [grib_message(short='2t', step=(s, s)) for s in (0, 6, 12)]
        write_grib(e.path('in.grib'), msgs)
        write_grib(e.path('in2.grib'), [grib_message(short='2t', step=(s, s), ni=3, nj=2) for s in (18, 24)])
        P = Patches()
        closed, opened = [], []
        R = rg.GRIBReader
        i0, c0 = R.__init__, R.close

        def init(self, *a, **k):
            i0(self, *a, **k)
            opened.append(self)

        def close(self, *a, **k):
            closed.append(self)
            return c0(self, *a, **k)
        P.set(R, '__init__', init)
        P.set(R, 'close', close)
        try:
            if kind[:2] in ('g ', 'K ', 'W '):
                return conf_case(e, c, P, M, config)
            param, interp, outm, agg = {'@applyConversion': 'k'}, {}, {'@format': c['fmt']}, None
            args = ['-c', e.path('cmd.json'), '-i', e.path('in.grib'), '-o', e.out, '-B', '-l', 'ERROR']
            want = 0
            fault = c.get('stage') if kind == 'fault' else None
            if kind == 'no messages':
                param['@shortName'] = 'tp'
                del param['@applyConversion']
            elif kind == 'no member':
                args += ['-m', '7']
            elif kind == 'no range':
                args += ['-s', '100', '-e', '200']
                want = None
            elif kind == 'no table':
                args.remove('-B')
                want = 1
            elif kind in ('no geopotential', 'ok correction', 'no dem') or fault == 'correct':
                param.update({'@correctionFormula': 'p+gem-dem', '@gem': 'z/9.81', '@demMap': e.path('nodem' if kind == 'no dem' else 'dem.map')})
                want = 0 if kind == 'ok correction' or fault else 1
                if kind == 'ok correction' or fault:
                    write_grib(e.path('in.grib'), [grib_message(short='2t', step=(s, s)) for s in (0, 6)] + [grib_message(short='z', step=(0, 0))])
            elif kind == 'no file':
                args[3] = e.path('none.grib')
                want = 1
            elif kind == 'no parameter':
                param['@shortName'] = 'zz'
                want = 1
            elif kind == 'bad args':
                args += ['--nonsense']
                want = 1
            elif kind in ('ok second', 'no messages second') or fault == 'second':
                args += ['-I', e.path('in2.grib'), '-e', '24']
                if kind == 'no messages second':
                    param['@shortName'] = 'tp'
                    del param['@applyConversion']
            if c.get('agg') or fault == 'aggregate':
                agg = {'@step': 6, '@type': 'instantaneous'}
            e.command(mode='nearest', param=param, interp=interp, outmaps=outm, aggregation=agg)
            if kind == 'bad json':
                open(e.path('cmd.json'), 'w').write('{"Execution": ')
                want = 1
            hit = []
            if fault:
                code = c['code']
                exc = ApplicationException(None, code, 'injected')

                def fail(*a, **k):
                    hit.append(1)
                    raise exc
                from pyg2p.main.writers import OutputWriter
                from pyg2p.main.interpolation import Interpolator
                from pyg2p.main.manipulation.correction import Corrector
                from pyg2p.main.manipulation.conversion import Converter
                from pyg2p.main.manipulation.aggregator import Aggregator
                if fault == 'open':
                    def bad(self, *a, **k):
                        fail()
                    R.__init__ = bad
                elif fault == 'second':
                    def sel(self, *a, **k):
                        if self._grib_file.endswith('in2.grib'):
                            fail()
                        return s0(self, *a, **k)
                    s0 = R.select_messages
                    P.set(R, 'select_messages', sel)
                else:
                    o, n = {'info': (R, 'get_grib_info'), 'writer': (OutputWriter, 'get_writer'), 'select': (R, 'select_messages'), 'convert': (Converter, 'convert'),
                            'aggregate': (Aggregator, 'do_manipulation'), 'write': (OutputWriter, 'write_maps'), 'interpolate': (Interpolator, 'interpolate'),
                            'correct': (Corrector, 'correct'), 'log': (controller.Controller, 'log_execution_context')}[fault]
                    P.set(o, n, fail)
                want = None
            try:
                r = M.pyg2p_exe(*args) if c['fmt'] == 'netcdf' else M.pyg2p_exe(args)
            except Exception as ex:
                return f'{kind} {fault} {c.get("code")}: {type(ex).__name__} {ex} is raised instead of an exit code'
            if fault:
                want = 0 if not hit or c['code'] == 3000 else 1
            if want == 0 and r != 0 or want == 1 and r == 0:
                return f'{kind} {fault} {c.get("code")}: exit code {r}'
            left = [x._grib_file for x in opened if x not in closed]
            if left:
                return f'{kind} {fault} {c.get("code")}: readers not closed: {left}'
            if kind.startswith('ok'):
                n = 5 if kind == 'ok second' else 2 if kind == 'ok correction' else 3
                fs = os.listdir(e.out)
                if c['fmt'] == 'pcraster' and len(fs) != n:
                    return f'{kind}: files {sorted(fs)}, {n} expected'
                if c['fmt'] == 'netcdf':
                    import netCDF4
                    d = netCDF4.Dataset(os.path.join(e.out, fs[0]))
                    k = len(d.variables['time'])
                    d.close()
                    if k != n:
                        return f'{kind}: {k} layers, {n} expected'
            return None
        finally:
            P.undo()


def tree(d):
    out = {}
    for r, ds, fs in os.walk(d):
        for f in fs:
            out[os.path.relpath(os.path.join(r, f), d)] = open(os.path.join(r, f), 'rb').read()
    return out


def conf_case(e, c, P, M, config):
    kind = c['kind']
    geo = e.path('geo.grib')
    write_grib(geo, [grib_message(short='2t' if kind == 'g not geopotential' else 'z')])
    ident = '5$8$4$3$12$regular_ll'

    def geoconf():
        p = os.path.join(e.home, 'geopotentials.json')
        return {k: v for k, v in j.load(open(p)).items() if k != 'description'}

    def run(args):
        try:
            return M.pyg2p_exe(*args), None
        except Exception as ex:
            return None, f'{kind}: {type(ex).__name__} {ex} is raised instead of an exit code'
    if kind.startswith('g '):
        e.geopotentials({'old': 'old.grib'})
        args = ['-g', geo if kind != 'g missing' else e.path('nogeo.grib')]
        if kind == 'g dir':
            args = ['-g', e.mkdir('d')]
        if kind == 'g no path':
            e.conf({'INTERTABLES': e.user})
        before = tree(e.geo)
        r, bad = run(args)
        if bad:
            return bad
        if kind in ('g ok', 'g twice'):
            if r != 0 or geoconf() != {'old': 'old.grib', ident: 'geo.grib'} or tree(e.geo) != {'geo.grib': open(geo, 'rb').read()}:
                return f'{kind}: exit code {r}, registry {geoconf()}, folder {sorted(tree(e.geo))}'
            if kind == 'g twice':
                shutil.copy(geo, e.path('geo2.grib'))
                e.reset_process_state()
                r, bad = run(['-g', e.path('geo2.grib')])
                if bad:
                    return bad
                if r == 0 or geoconf() != {'old': 'old.grib', ident: 'geo.grib'} or sorted(tree(e.geo)) != ['geo.grib']:
                    return f'{kind}: exit code {r}, registry {geoconf()}, folder {sorted(tree(e.geo))}'
            return None
        if r == 0 or geoconf() != {'old': 'old.grib'} or tree(e.geo) != before:
            return f'{kind}: exit code {r}, registry {geoconf()}, folder {sorted(tree(e.geo))}'
        return None
    if kind.startswith('K '):
        reg = {'description': 'x', 'a': {'filename': 'a.npy', 'method': 'm'}}
        save_scipy_table(os.path.join(e.user, 'a.npy'), np.zeros((2, 2)), np.zeros((2, 2)))
        want = dict(reg)
        if kind == 'K mixed':
            reg['b'] = {'filename': 'b.npy'}
            save_scipy_table(os.path.join(e.user, 'loose.npy'), np.zeros((2, 2)), np.zeros((2, 2)))
        if kind == 'K gz':
            reg['c'] = want['c'] = {'filename': 'c.npy'}
            save_scipy_table(os.path.join(e.user, 'c.npy.gz'), np.zeros((2, 2)), np.zeros((2, 2)))
        e.intertables(reg)
        before = (tree(e.user), tree(e.glob), tree(e.geo))
        r, bad = run(['-K'])
        if bad:
            return bad
        if r != 0 or e.read_intertables() != want or (tree(e.user), tree(e.glob), tree(e.geo)) != before:
            return f'{kind}: exit code {r}, registry {e.read_intertables()} instead of {want}'
        return None
    log = []

    class FTP:
        def __init__(self, *a):
            log.append(('connect',) + a)

        def cwd(self, d):
            log.append(('cwd', d))

        def nlst(self):
            return ['.', '..', 'readme.txt', 'x.npy', 'y.npy']

        def retrbinary(self, cmd, cb):
            log.append(cmd)
            cb(b'data ' + cmd.split()[-1].encode())

        def quit(self):
            log.append('quit')
    P.set(config, 'FTP', FTP)
    j.dump({'host': 'h', 'user': 'u', 'pwd': 'p', 'folder': 'f'}, open(os.path.join(e.home, 'ftp.json'), 'w'))
    ds, d = ('intertables', e.user) if kind != 'W geo' else ('geopotentials', e.geo)
    if kind == 'W fail':
        from pyg2p.exceptions import ApplicationException

        def fail(*a):
            raise ApplicationException(None, 9000, 'x')
        FTP.nlst = fail
    open(os.path.join(d, 'y.npy'), 'wb').write(b'mine')
    r, bad = run(['-W', ds])
    if bad:
        return bad
    got = tree(d)
    if kind == 'W fail':
        return None if r != 0 and got == {'y.npy': b'mine'} else f'{kind}: exit code {r}, folder {sorted(got)}'
    if r != 0 or got != {'y.npy': b'mine', 'x.npy': b'data x.npy'} or log[0] != ('connect', 'h', 'u', 'p') or log[1] != ('cwd', 'f/' + ds):
        return f'{kind}: exit code {r}, folder {got}, {log}'
    return None
