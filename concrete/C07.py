"""C07: applying an interpolation table (Interpolator.interpolate with an existing table)."""
import os
import numpy as np
from numpy import ma
from common import *
from env import Env, save_scipy_table, save_table

RULE = ('random tables (1, 3, 4, 11 neighbours; out-of-range markers; zero-weight markers; GRIB-API nearest and inverse distance tables with cells left out), '
        'source fields plain/masked/nomask, target grids 1x1..5x6, every interpolation mode, tables stored plain or compressed; non-trivial: always')
NNEAR = {'nearest': 1, 'invdist': 4, 'adw': 11, 'cdd': 11, 'bilinear': 4, 'triangulation': 3, 'bilinear_delaunay': 4}
SUFFIX = {'grib_nearest': 'grib_nearest', 'grib_invdist': 'grib_invdist', 'nearest': 'scipy_nearest', 'invdist': 'scipy_invdist', 'adw': 'scipy_adw',
          'cdd': 'scipy_cdd', 'bilinear': 'scipy_bilinear', 'triangulation': 'scipy_triangulation', 'bilinear_delaunay': 'scipy_bilinear_delaunay'}
MODES = ['nearest', 'nearest', 'invdist', 'invdist', 'triangulation', 'bilinear', 'bilinear_delaunay', 'adw', 'cdd', 'grib_nearest', 'grib_invdist', 'grib_invdist', 'grib_nearest']
GRID = '$'.join(['50', '5', '4', '3'] + [str(20 + k) for k in range(60)])    # an id as long as that of a reduced grid


def weights(rng, k):
    w = [rng.random() for _ in range(k)]
    r = rng.random()
    if r < 0.2:
        w = [0.0] * k
        w[rng.randrange(k)] = 1.0
    elif r < 0.5:
        for i in range(k):
            if rng.random() < 0.3:
                w[i] = 0.0
    s = sum(w)
    return [x / s for x in w] if s else [1.0] + [0.0] * (k - 1)


def cases(rng, tier):
    while True:
        mode = rng.choice(MODES)
        rows, cols = rng.randint(1, 5), rng.randint(1, 6)
        n = rng.randint(1, 14)
        v = gen_arr(rng, [n], lo=-50, hi=50)
        c = dict(mode=mode, rows=rows, cols=cols, v=v, gz=rng.random() < 0.6, table=[])
        if mode.startswith('grib'):
            cells = [(r, q) for r in range(rows) for q in range(cols)]
            rng.shuffle(cells)
            cells = cells[:rng.randint(1, len(cells))]
            if rng.random() < 0.5:
                cells.sort()
            for r, q in cells:
                k = 1 if mode == 'grib_nearest' else 4
                ix = [rng.randrange(n) for _ in range(k)]
                c['table'].append([r, q, ix, weights(rng, 4) if k == 4 else None])
        else:
            k = NNEAR[mode]
            for _ in range(rows * cols):
                if k == 1:
                    c['table'].append([n if rng.random() < 0.15 else rng.randrange(n), None])
                elif rng.random() < 0.15:
                    c['table'].append([[n] * k, [None] * k])
                else:
                    ix, w = [rng.randrange(n) for _ in range(k)], weights(rng, k)
                    for j in range(k):
                        if w[j] == 0 and rng.random() < 0.5:
                            ix[j] = n
                    c['table'].append([ix, w])
        yield c


def setup(c, env, v_n):
    """maps, configuration and stored table; -> interpolator"""
    rows, cols = c['rows'], c['cols']
    lats = np.array([[50.0 - r] * cols for r in range(rows)])
    lons = np.array([[5.0 + q for q in range(cols)] for r in range(rows)])
    env.maps(lats, lons)
    env.command(mode=c['mode'])
    from pyg2p.main.interpolation.latlong import LatLong
    from pyg2p.main.interpolation import Interpolator
    ident = LatLong(env.path('lat.map'), env.path('lon.map')).identifier
    fn = 'mytable.npy' + ('.gz' if c['gz'] else '')
    env.intertables({f'I{GRID.replace("$", "_")}_{ident}{SUFFIX[c["mode"]]}': {'filename': fn, 'method': c['mode'], 'source_shape': [v_n], 'target_shape': [rows, cols]}})
    p = os.path.join(env.user, fn)
    t = c['table']
    if c['mode'] == 'grib_nearest':
        save_table(p, np.asarray([[x[0] for x in t], [x[1] for x in t], [x[2][0] for x in t]]))
    elif c['mode'] == 'grib_invdist':
        ix = [[x[0] for x in t], [x[1] for x in t]] + [[x[2][j] for x in t] for j in range(4)]
        co = [[x[3][j] for x in t] for j in range(4)] + [[0.0] * len(t)] * 2
        save_scipy_table(p, np.asarray(ix, dtype='i8'), np.asarray(co, dtype='f8'))
    else:
        k = NNEAR[c['mode']]
        if k == 1:
            save_scipy_table(p, np.array([x[0] for x in t], dtype='i8'), np.zeros(len(t)))
        else:
            save_scipy_table(p, np.array([x[0] for x in t], dtype='i8'), np.array([[np.nan if w is None else w for w in x[1]] for x in t], dtype='f8'))
    return Interpolator(env.context(), -9999.0)


def expected(c, v):
    """target cell -> value or None (missing)"""
    d, m = data_of(v).ravel(), mask_of(v).ravel()
    out = {}
    n = d.size
    if c['mode'].startswith('grib'):
        for r in range(c['rows']):
            for q in range(c['cols']):
                out[(r, q)] = None
        for r, q, ix, w in c['table']:
            w = w or [1.0]
            out[(r, q)] = None if any(m[i] for i in ix) else sum(wi * float(d[i]) for i, wi in zip(ix, w))
        return out
    for p, (ix, w) in enumerate(c['table']):
        cell = (p // c['cols'], p % c['cols'])
        if w is None:
            ix, w = [ix], [1.0]
        if any(x is None for x in w) or any(i == n and x != 0 for i, x in zip(ix, w)):
            out[cell] = None
        elif any(i < n and m[i] for i in ix):
            out[cell] = None
        else:
            out[cell] = sum(wi * float(d[i]) for i, wi in zip(ix, w) if i < n)
    return out


def compare(c, exp, r, mv, what='result'):
    if np.shape(r) != (c['rows'], c['cols']):
        return f'{what} has shape {np.shape(r)}, the target grid is {(c["rows"], c["cols"])}'
    d, m = data_of(r), mask_of(r)
    for cell, e in exp.items():
        x = float(d[cell])
        missing = bool(m[cell]) or x != x or x == mv
        if e is None and not missing:
            return f'{what} cell {cell} ({c["mode"]}): {x!r}, expected missing'
        if e is not None and missing:
            return f'{what} cell {cell} ({c["mode"]}): missing, expected {e!r}'
        if e is not None and not close(x, e, 1e-9, 1e-9):
            return f'{what} cell {cell} ({c["mode"]}): {x!r}, expected {e!r}'
    return None


def check(c):
    v = mk(c['v'])
    with Env() as env:
        it = setup(c, env, v.size)
        exp = expected(c, v)
        try:
            for k in range(2):          # the second call uses the table already in memory
                r = it.interpolate(None, None, v.copy(), GRID, None)
                bad = compare(c, exp, r, it.mv_output, f'call {k + 1}')
                if bad:
                    return bad
        except Exception as ex:
            return f'unexpected {exc(ex)} applying a stored {c["mode"]} table'
    return None
