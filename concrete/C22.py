"""C22 at run time: user variables in the paths of the JSON command file."""
import json as j
import os
import re
import numpy as np
from env import Env

RULE = ('random .conf files (comments, blank lines, quotes, values with = and braces, several files redefining variables, other files in the folder) and path options with zero to four '
        'variables, repeated, undefined, adjacent, or with other braces; ExecutionContext with file existence stubbed')
NAMES = ('MAPS', 'EUROPE_MAPS', 'Dem5', 'x', '_v', 'MAPS2', 'dataroot', 'V1_2')
OPTS = {'clone': 'outMaps.clone', 'lat': 'interpolation.latMap', 'lon': 'interpolation.lonMap', 'dem': 'correction.demMap', 'cdd': 'interpolation.cdd_map', 'it': 'interpolation.dirs', 'geo': 'geopotential.dirs'}


def cases(rng, tier):
    while True:
        files = []
        for k in range(rng.randrange(0, 4)):
            d = []
            for m in range(rng.randrange(0, 5)):
                d.append((rng.choice(NAMES), rng.choice(['/data/maps', '/a b/c', 'rel', '/x=y/z', '/x==', '/{other}/', '/é', '/a//b', '/m'])))
            files.append((rng.choice(['a', 'b', 'paths', 'zz', 'M']) + str(k) + rng.choice(['.conf', '.conf', '.conf', '.json', '.conf~']), d, rng.random() < 0.5))
        opts = {}
        for o in OPTS:
            s = ''
            for p in range(rng.randrange(0, 5)):
                s += rng.choice(['/', 'lat.map', '/m/', '{%s}' % rng.choice(NAMES), '{%s}' % rng.choice(NAMES), '{}', '{1}', '{a b}', '}', '%s', '$HOME', '{'])
            opts[o] = s
        if rng.random() < 0.6:
            defined = {n for f, d, _ in files for n, _ in d if f.endswith('.conf')}
            for o in opts:
                opts[o] = re.sub(r'{([A-Za-z_]\w*)}', lambda m: m.group(0) if m.group(1) in defined else 'q', opts[o])
        yield dict(files=files, opts=opts, corr=rng.random() < 0.7)


def nontrivial(c):
    return any('{' in s for s in c['opts'].values())


def check(c):
    with Env(conf=False) as e:
        e.maps(np.zeros((2, 2)), np.zeros((2, 2)))
        want = {}
        for f, d, q in sorted(c['files']):
            with open(os.path.join(e.home, f), 'w') as h:
                h.write('# comment = x\n\n')
                for k, v in d:
                    h.write(f'{k} = "{v}"\n' if q else f'{k}={v}\n')
                    if f.endswith('.conf'):
                        want[k] = v
                h.write('novalue\n#MAPS=/no\n')
        p, o, i, x = {}, {}, {}, {}
        o['@cloneMap'] = c['opts']['clone'] or 'c'
        i['@latMap'] = c['opts']['lat'] or 'a'
        i['@lonMap'] = c['opts']['lon'] or 'o'
        i['@cdd_map'] = c['opts']['cdd'] or 'd'
        if c['opts']['it']:
            x['@intertableDir'] = c['opts']['it']
        if c['opts']['geo']:
            x['@geopotentialDir'] = c['opts']['geo']
        if c['corr']:
            p.update({'@demMap': c['opts']['dem'] or 'm', '@gem': 'z', '@correctionFormula': 'p+{x}'})
        e.command(param=p, outmaps=o, interp=i, execution=x)
        texts = {OPTS['clone']: o['@cloneMap'], OPTS['lat']: i['@latMap'], OPTS['lon']: i['@lonMap'], OPTS['cdd']: i['@cdd_map'], OPTS['it']: x.get('@intertableDir'), OPTS['geo']: x.get('@geopotentialDir'),
                 OPTS['dem']: p.get('@demMap')}
        rx = re.compile(r'{([A-Za-z_][A-Za-z0-9_]*)}')
        undefined = {v for t in texts.values() if t for v in rx.findall(t) if v not in want}
        from pyg2p.main import context
        from pyg2p.exceptions import ApplicationException
        from pyg2p.util import files
        real = files.exists
        home = os.path.expanduser('~')
        files.exists = lambda q, is_folder=False: real(q, is_folder) if str(q).startswith((home, e.root)) else True
        try:
            try:
                ctx = e.context()
            except ApplicationException as ex:
                if undefined and ex.code == 8000:
                    return None
                return f'refused with {ex.code} {ex}; undefined variables {sorted(undefined)}, options {texts}, variables {want}'
            except Exception as ex:
                return f'{type(ex).__name__} {ex}; undefined variables {sorted(undefined)}, options {texts}, variables {want}'
        finally:
            files.exists = real
        if undefined:
            return f'accepted with undefined variables {sorted(undefined)}: {texts}'
        for k, t in texts.items():
            if t is None:
                continue
            w = rx.sub(lambda m: want[m.group(1)], t)
            g = ctx.get(k)
            g = g['user'] if k.endswith('.dirs') else g
            if g != w:
                return f'{k} {t!r} becomes {g!r}, not {w!r}; variables {want}'
        if c['corr'] and ctx.get('correction.formula') != 'p+{x}':
            return 'the formula is changed'
    return None
