"""C17: contents of PCRaster output maps."""
from outputs import *
from outputs import gen as _gen

RULE = ('random clone maps (with and without missing cells), fields plain/masked/nomask with NaN and missing-value cells, written directly and through OutputWriter with '
        'out-of-range table entries, PCRaster and netCDF target maps, change of resolution, several maps by one writer; non-trivial: always')


def cases(rng, tier):
    while True:
        if rng.random() < 0.5:
            c = _gen(rng, 'pcraster')
            if fits(c):
                c['kind'] = 'output'
                yield c
            continue
        rows, cols = rng.randint(1, 4), rng.randint(1, 5)
        yield dict(kind='direct', clone=[[None if rng.random() < 0.3 else float(rng.randint(0, 3)) for _ in range(cols)] for _ in range(rows)], geo=[rng.choice([5.0, -10.25]), rng.choice([1.0, 0.1, 5000.0]), rng.choice([50.0, 71.5])],
                   fields=[gen_arr(rng, [rows, cols], dtype=rng.choice(['f8', 'f8', 'f4']), lo=-300, hi=900, special=('mv', 'nan', 0.0)) for _ in range(rng.randint(1, 4))])


def field(a):
    b = dict(a)
    b['data'] = [{'mv': PCRMV, 'nan': float('nan')}.get(x, x) if isinstance(x, str) else x for x in a['data']]
    return mk(b)


def compare(path, geo, exp, what):
    if not os.path.isfile(path):
        return f'{what}: no map {os.path.basename(path)}'
    a, nodata, g = read_pcr(path)
    if np.shape(a) != np.shape(exp):
        return f'{what}: size {np.shape(a)}, the clone has {np.shape(exp)}'
    if any(abs(x - y) > 1e-6 for x, y in zip(g, geo)):
        return f'{what}: georeference {g}, the clone has {geo}'
    if nodata is None or float(nodata) != PCRMV:
        return f'{what}: declared missing value {nodata!r}, the clone has {PCRMV!r}'
    for r, row in enumerate(exp):
        for q, e in enumerate(row):
            x = float(a[r, q])
            if e is None and x != PCRMV:
                return f'{what} cell {(r, q)}: {x!r}, expected missing'
            if e is not None and (x == PCRMV or not close(x, e, 1e-6, 1e-7)):
                return f'{what} cell {(r, q)}: {"missing" if x == PCRMV else repr(x)}, expected {e!r}'
    return None


def check(c):
    with Env() as env:
        if c['kind'] == 'output':
            try:
                w, fields = run(c, env, 'pcraster')
            except Exception as ex:
                return f'writing maps: unexpected {exc(ex)}'
            for k in range(len(fields)):
                n = name8_3(c['prefix'], c['fmap'] + k * c['ext'])
                bad = compare(os.path.join(env.out, n), (4.5, 1.0, 0.0, 50.5, 0.0, -1.0), expected(c, fields, k), f'map {n} of step {c["steps"][k]}')
                if bad:
                    return bad
            return None
        from pyg2p.main.writers.pcr import PCRasterWriter
        geo = (c['geo'][0], c['geo'][1], 0.0, c['geo'][2], 0.0, -c['geo'][1])
        write_pcr(env.path('c.map'), np.array([[np.nan if x is None else x for x in r] for r in c['clone']], dtype='f8'), geo)
        try:
            w = PCRasterWriter(env.path('c.map'))
            for k, f in enumerate(c['fields']):
                w.write(os.path.join(env.out, f'm{k}.map'), field(f))
            w.close()
        except Exception as ex:
            return f'writing maps: unexpected {exc(ex)}'
        for k, f in enumerate(c['fields']):
            v = field(f)
            d, m = data_of(v), mask_of(v)
            exp = [[None if x is None or m[i, j] or d[i, j] != d[i, j] or float(d[i, j]) == PCRMV else float(d[i, j]) for j, x in enumerate(r)] for i, r in enumerate(c['clone'])]
            bad = compare(os.path.join(env.out, f'm{k}.map'), geo, exp, f'map {k} of {len(c["fields"])}')
            if bad:
                return bad
    return None
