"""C06: elevation correction (Corrector) on real geopotential GRIB files, DEM maps and stored interpolation tables."""
import os
import random
from common import *
from env import Env, grib_message, write_grib, write_pcr, decoded, save_table
from tables import GRID, find_table, store
import C07 as c07

RULE = ('histories of 1-5 corrections in one process over two grids, two geopotential files per grid (one with missing values), two DEMs (with missing cells), two target '
        'maps of one size, several formulas and modes with random stored tables; fields plain/masked/nomask with missing-value markers and NaN; non-trivial: always')
FILL = 9.969209968386869e+36
FORMULAS = {'p+gem-dem*0.0065': lambda p, d, g: p + g - d * 0.0065, 'p*(1.0-0.001*(dem-gem))': lambda p, d, g: p * (1 - 0.001 * (d - g)), 'dem': lambda p, d, g: d,
            'gem': lambda p, d, g: g, 'p': lambda p, d, g: p, 'where(dem>gem, p, p-1)': lambda p, d, g: p if d > g else p - 1}
GEMS = {'(z/9.81)*0.0065': lambda z: z / 9.81 * 0.0065, 'z*2+1': lambda z: z * 2 + 1, 'z': lambda z: z, 'where(z<0, 0, z)': lambda z: max(z, 0.0)}
MODES = ['nearest', 'nearest', 'invdist', 'triangulation', 'bilinear', 'grib_nearest', 'grib_invdist']
GRIDS = [GRID, GRID + '7']
NI, NJ = 4, 3


def cases(rng, tier):
    while True:
        rows, cols = rng.randint(1, 3), rng.randint(1, 4)
        c = dict(rows=rows, cols=cols, dem=[[[None if rng.random() < 0.2 else float(rng.randint(0, 900)) for _ in range(cols)] for _ in range(rows)] for _ in range(2)],
                 z=[gen_arr(rng, [NI * NJ], rng.choice(['plain', 'masked']), lo=-100, hi=3000) for _ in range(4)],
                 seed=rng.randrange(10 ** 9), runs=[])
        for _ in range(rng.randint(1, 5)):
            r = dict(grid=rng.randrange(2), dem=rng.randrange(2), geo=rng.choice([0, 0, 0, 1]), target=rng.choice([0, 0, 1]), f=rng.choice(sorted(FORMULAS)), g=rng.choice(sorted(GEMS)),
                     mode=rng.choice(MODES), p=gen_arr(rng, [rows, cols], special=('mv', 'fill', 'nan', 0.0)))
            if c['runs'] and rng.random() < 0.85:
                # differs from an earlier run in at most two respects
                q = dict(rng.choice(c['runs']))
                for k in rng.sample(['grid', 'dem', 'geo', 'target', 'f', 'g', 'mode'], rng.choice([0, 1, 1, 1, 2])):
                    q[k] = r[k] if r[k] != q[k] or k in ('f', 'g', 'mode') else 1 - q[k]
                q['p'] = r['p']
                r = q
            c['runs'].append(r)
        yield c


def geo_values(path, mvalue):
    v = decoded(path)[0][2]
    return ma.array(v, mask=v == mvalue)


def check(c):
    with Env() as env:
        from pyg2p.main.interpolation.latlong import LatLong
        rows, cols = c['rows'], c['cols']
        for t in range(2):
            lats = np.array([[50.0 - r - 0.25 * t] * cols for r in range(rows)])
            lons = np.array([[5.0 + q + 0.25 * t for q in range(cols)] for r in range(rows)])
            write_pcr(env.path(f'lat{t}.map'), lats)
            write_pcr(env.path(f'lon{t}.map'), lons)
        write_pcr(env.path('clone.map'), np.ones((rows, cols)))
        idents = [LatLong(env.path(f'lat{t}.map'), env.path(f'lon{t}.map')).identifier for t in range(2)]
        for k in range(2):
            write_pcr(env.path(f'dem{k}.map'), np.array([[np.nan if x is None else x for x in row] for row in c['dem'][k]], dtype='f8'))
        reg = {}
        os.makedirs(env.path('geo2'), exist_ok=True)
        for g in range(2):
            for k in range(2):
                z = c['z'][2 * g + k]
                h = grib_message(ni=NI, nj=NJ, short='z', values=z['data'], missing=z.get('mask'), mvalue=9999)
                write_grib(os.path.join([env.geo, env.path('geo2')][k], f'g{g}.grib'), [h])
            reg[GRIDS[g]] = f'g{g}.grib'
        env.geopotentials(reg)
        rng = random.Random(c['seed'])
        tabs, treg = {}, {}
        for g in range(2):
            for t in range(2):
                for mode in sorted({r['mode'] for r in c['runs']}):
                    tab = find_table(rng, c, mode, NI * NJ)
                    fn = f't{g}{t}{mode}.npy'
                    store(os.path.join(env.user, fn), mode, tab)
                    tabs[(g, t, mode)] = tab
                    treg[f'I{GRIDS[g].replace("$", "_")}_{idents[t]}{c07.SUFFIX[mode]}'] = {'filename': fn, 'method': mode, 'source_shape': [NI * NJ], 'target_shape': [rows, cols]}
        env.intertables(treg)
        env.reset_process_state()
        from pyg2p.main.manipulation.correction import Corrector
        ctxs = {}
        for n, r in enumerate(c['runs']):
            what = f'correction {n + 1} of {len(c["runs"])} ({r["mode"]}, grid {r["grid"]}, dem {r["dem"]}, target {r["target"]}, {r["f"]}, gem {r["g"]})'
            key = tuple(r[k] for k in ('dem', 'geo', 'target', 'f', 'g', 'mode'))
            if key not in ctxs:
                cmd = env.command(mode=r['mode'], lat=f'lat{r["target"]}.map', lon=f'lon{r["target"]}.map', name=f'cmd{n}.json',
                                  param={'@correctionFormula': r['f'], '@gem': r['g'], '@demMap': env.path(f'dem{r["dem"]}.map')})
                keep = getattr(Corrector, 'instances', None)
                keep = dict(keep) if isinstance(keep, dict) else None
                ctxs[key] = env.context(['-G', env.path('geo2')] if r['geo'] else [], cmd=f'cmd{n}.json')
                if keep is not None:
                    Corrector.instances.update(keep)      # all runs share one process
            ctx = ctxs[key]
            p = pfield(r['p'])
            p0 = p.copy()
            gpath = os.path.join([env.geo, env.path('geo2')][r['geo']], f'g{r["grid"]}.grib')
            z = geo_values(gpath, 9999)      # the value missing points are decoded to
            gv = [None if m else GEMS[r['g']](float(x)) for x, m in zip(data_of(z), mask_of(z))]
            gm = ma.array([0.0 if x is None else x for x in gv], mask=[x is None for x in gv])
            gem = c07.expected(dict(mode=r['mode'], rows=rows, cols=cols, table=tabs[(r['grid'], r['target'], r['mode'])]), gm)
            try:
                out = Corrector.get_instance(ctx, GRIDS[r['grid']]).correct(p)
            except Exception as ex:
                return f'{what}: unexpected {exc(ex)}'
            if np.shape(out) != (rows, cols):
                return f'{what}: shape {np.shape(out)}'
            d, m = data_of(out), mask_of(out)
            for i in range(rows):
                for j in range(cols):
                    pv = None if mask_of(p0)[i, j] else float(data_of(p0)[i, j])
                    if pv is not None and (pv != pv or pv == FILL or pv == float(np.float32(-3.4028234663852886e+38))):
                        pv = None
                    dv, g = c['dem'][r['dem']][i][j], gem[(i, j)]
                    x = float(d[i, j])
                    missing = bool(m[i, j]) or x != x or x == FILL
                    if pv is None or dv is None or g is None:
                        if not missing:
                            return f'{what} cell {(i, j)}: p={pv} dem={dv} gem={g}: {x!r}, expected missing'
                    elif missing or not close(x, FORMULAS[r['f']](pv, dv, g), 1e-9, 1e-9):
                        return f'{what} cell {(i, j)}: p={pv} dem={dv} gem={g}: {"missing" if missing else repr(x)}, expected {FORMULAS[r["f"]](pv, dv, g)!r}'
                    if mask_of(p0)[i, j] and not m[i, j]:
                        return f'{what} cell {(i, j)}: a masked value is no longer masked'
    return None


def pfield(a):
    sp = {'mv': float(np.float32(-3.4028234663852886e+38)), 'fill': FILL, 'nan': float('nan')}
    b = dict(a)
    b['data'] = [sp.get(x, x) if isinstance(x, str) else x for x in a['data']]
    return mk(b)
