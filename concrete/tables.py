"""shared by C12 and C13: building and using interpolation tables through Interpolator"""
import json
import os
import random
import sys
import numpy as np
from common import *
from env import Env, grib_message, load_table, save_table, save_scipy_table
import C07 as c07

GRID = c07.GRID
SCIPY = ['nearest', 'invdist', 'triangulation', 'bilinear', 'bilinear_delaunay', 'adw', 'cdd']


def snapshot(*dirs):
    out = {}
    for d in dirs:
        for r, ds, fs in os.walk(d):
            for f in fs:
                p = os.path.join(r, f)
                with open(p, 'rb') as h:
                    out[p] = h.read()
    return out


def in_child(f, uid=None):
    """run f() in a forked child (optionally as another user): ('ok', value) or ('raise', type name, code, text)"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            if uid is not None:
                os.setgroups([])
                os.setgid(uid)
                os.setuid(uid)
            try:
                o = ['ok', f()]
            except Exception as ex:
                o = ['raise', type(ex).__name__, getattr(ex, 'code', None), str(ex)[:300]]
            with os.fdopen(wr, 'w') as h:
                h.write(json.dumps(o))
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd) as h:
        t = h.read()
    os.waitpid(pid, 0)
    if not t:
        raise RuntimeError('child gave no answer')
    return json.loads(t)


def values_of(r):
    return cells(np.ma.array(data_of(r), mask=mask_of(r) | np.isnan(data_of(r).astype('f8'))))


class Site:
    """source grid, target maps and configuration of one case"""

    def __init__(self, c, env):
        self.c, self.env = c, env
        self.rows, self.cols = c['rows'], c['cols']
        lats = np.array([[50.0 - 0.5 * r - 0.1 for q in range(self.cols)] for r in range(self.rows)])
        lons = np.array([[5.0 + 0.5 * q + 0.2 for q in range(self.cols)] for r in range(self.rows)])
        env.maps(lats, lons)
        self.ni, self.nj = 5, 4
        self.n = 20
        self.slat = np.array([[51.0 - i] * self.ni for i in range(self.nj)], dtype='f8').ravel()
        self.slon = np.array([[4.0 + j for j in range(self.ni)] for i in range(self.nj)], dtype='f8').ravel()

    def ident(self):
        from pyg2p.main.interpolation.latlong import LatLong
        return LatLong(self.env.path('lat.map'), self.env.path('lon.map')).identifier

    def table_id(self, mode, grid=GRID):
        return f'I{grid.replace("$", "_")}_{self.ident()}{c07.SUFFIX[mode]}'

    def interpolator(self, mode, create, args=()):
        extra = {}
        if mode == 'cdd':
            m = self.env.path('cdd.map')
            if not os.path.exists(m):
                from env import write_pcr
                write_pcr(m, np.full((self.rows, self.cols), 150.0))
            extra = {'@cdd_map': m, '@cdd_mode': self.c.get('cdd_mode', 'Hofstra')}
        self.env.command(mode=mode, interp=extra)
        from pyg2p.main.interpolation import Interpolator
        return Interpolator(self.env.context((['-B'] if create else []) + list(args)), -9999.0)

    def run(self, it, mode, v, grid=GRID, second=False):
        """interpolate v; GRIB-API modes get the messages they need to build a table"""
        if mode.startswith('grib'):
            import eccodes as ec
            g = grib_message(ni=self.ni, nj=self.nj, lat1=51.0, lon1=4.0, dlat=1.0, dlon=1.0, values=np.arange(self.n))
            try:
                it.aux_for_intertable_generation(g, np.arange(self.n, dtype='f8'), g, np.arange(self.n, dtype='f8'))
                return it.interpolate(None, None, v, grid, None, -1, is_second_res=second)
            finally:
                ec.codes_release(g)
        return it.interpolate(self.slat, self.slon, v, grid, {'gridType': 'regular_ll', 'radius': 6371229.0, 'Nj': self.nj})


def same(a, b):
    """None or how two results differ (same missing cells; values up to the summation order)"""
    if np.shape(a) != np.shape(b):
        return f'shape {np.shape(a)} and {np.shape(b)}'
    for i, (x, y) in enumerate(zip(values_of(a), values_of(b))):
        if (x is None) != (y is None) or (x is not None and not close(x, y, 1e-12, 1e-12)):
            return f'cell {i}: {x!r} and {y!r}'
    return None


def find_table(rng, site, mode, n):
    """a random valid stored table for the site's target grid"""
    t = []
    if mode.startswith('grib'):
        for r in range(site['rows']):
            for q in range(site['cols']):
                k = 1 if mode == 'grib_nearest' else 4
                t.append([r, q, [rng.randrange(n) for _ in range(k)], c07.weights(rng, 4) if k == 4 else None])
        return t
    k = c07.NNEAR[mode]
    for _ in range(site['rows'] * site['cols']):
        if k == 1:
            t.append([rng.randrange(n), None])
        else:
            t.append([[rng.randrange(n) for _ in range(k)], c07.weights(rng, k)])
    return t


def store(path, mode, t):
    """write a table the way pyg2p reads it"""
    if mode == 'grib_nearest':
        save_table(path, np.asarray([[x[0] for x in t], [x[1] for x in t], [x[2][0] for x in t]]))
    elif mode == 'grib_invdist':
        ix = [[x[0] for x in t], [x[1] for x in t]] + [[x[2][j] for x in t] for j in range(4)]
        co = [[x[3][j] for x in t] for j in range(4)] + [[0.0] * len(t)] * 2
        save_scipy_table(path, np.asarray(ix, dtype='i8'), np.asarray(co, dtype='f8'))
    elif c07.NNEAR[mode] == 1:
        save_scipy_table(path, np.array([x[0] for x in t], dtype='i8'), np.zeros(len(t)))
    else:
        save_scipy_table(path, np.array([x[0] for x in t], dtype='i8'), np.array([x[1] for x in t], dtype='f8'))
