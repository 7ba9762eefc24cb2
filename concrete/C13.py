"""C13: a stored interpolation table gives what the run that built it gave; tables are not mixed up."""
import json
import os
import random
from common import *
from env import Env
from tables import *

RULE = ('build a table in every mode, then use it again in the same process, from disk (table folder moved, so nothing is cached), under the file name it is registered with '
        'and decompressed; with the field it was built with and another one; other grid, other target, other mode: not found; non-trivial: always')
CASE_TIMEOUT = 240
LIGHT = ['nearest', 'invdist', 'triangulation', 'bilinear', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist']


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        mode = rng.choice(LIGHT)
        if k in (12, 13) or (tier != 'quick' and k % 10 == 0):
            mode = 'adw' if k % 2 else 'cdd'
        c = dict(mode=mode, rows=rng.randint(1, 3), cols=rng.randint(1, 4), v=gen_arr(rng, [20]), v2=gen_arr(rng, [20]), second=rng.random() < 0.3,
                 other=rng.choice(['grid', 'mode', 'target', 'none']), gunzip=rng.random() < 0.4, prior=rng.random() < 0.4,
                 named=rng.choice([None, None, 't.npy', 't.npy.gz', 't.gz', 't']))
        if mode == 'bilinear':
            c['rows'] = rng.randint(7, 9)      # the corner search gives up after as many tries as the target map has rows
        yield c


def check(c):
    with Env() as env:
        site = Site(c, env)
        mode = c['mode']
        v, v2 = mk(c['v']), mk(c['v2'])
        tid = site.table_id(mode)
        conf = {}
        if c['prior']:
            conf['Iother_grid_xscipy_nearest'] = {'filename': 'other.npy', 'method': 'nearest', 'source_shape': [1], 'target_shape': [1, 1]}
        if c.get('named'):       # registered under a name of the user's, not yet built
            conf[tid] = {'filename': c['named'], 'method': mode, 'source_shape': [20], 'target_shape': [c['rows'], c['cols']]}
        if conf:
            env.intertables(conf)
        it = site.interpolator(mode, True)
        try:
            first = site.run(it, mode, v.copy(), second=c['second']).copy()
            again = site.run(it, mode, v.copy(), second=c['second']).copy()
            first2 = site.run(it, mode, v2.copy(), second=c['second']).copy()
        except Exception as ex:
            return f'building a {mode} table: unexpected {exc(ex)}'
        bad = same(first, again)
        if bad:
            return f'{mode}: the run that built the table and its next use differ: {bad}'
        reg = env.read_intertables()
        if tid not in reg:
            return f'{mode}: table not registered as {tid}: {sorted(reg)}'
        # what a later process sees: same folder content under a path that was never loaded
        moved = env.path('tables_moved')
        os.rename(env.user, moved)
        if c['gunzip']:
            n = reg[tid]['filename']
            if n.endswith('.gz'):
                save_table(os.path.join(moved, n[:-3]), load_table(os.path.join(moved, n)), gz=False)
                os.unlink(os.path.join(moved, n))
                reg[tid]['filename'] = n[:-3]
                env.intertables(reg)
        env.conf({'INTERTABLES': moved, 'GEOPOTENTIALS': env.geo})
        before = snapshot(env.root, env.home)
        try:
            it2 = site.interpolator(mode, False)
            a, b = site.run(it2, mode, v.copy()), site.run(it2, mode, v2.copy(), second=c['second'])
        except Exception as ex:
            return f'{mode}: using the stored table in a later run: unexpected {exc(ex)}'
        bad = same(first, a) or same(first2, b)
        if bad:
            return f'{mode}: the run that built the table and a later run differ: {bad}'
        if mode != 'cdd' and snapshot(env.root, env.home) != before:
            return f'{mode}: using a stored table changed files'
        # anything else must not find this table
        if c['other'] == 'grid':
            return miss(site, env, mode, v, f'a different source grid', grid=GRID + '5')
        if c['other'] == 'mode':
            m = [x for x in LIGHT if x != mode][c['rows'] % 6]
            return miss(site, env, m, v, f'mode {m}, table built for {mode}')
        if c['other'] == 'target':
            lats = np.array([[50.25 - 0.5 * r for q in range(c['cols'])] for r in range(c['rows'])])
            lons = np.array([[5.25 + 0.5 * q for q in range(c['cols'])] for r in range(c['rows'])])
            env.maps(lats, lons)
            return miss(site, env, mode, v, 'a different target map of the same size')
    return None


def miss(site, env, mode, v, what, grid=GRID):
    it = site.interpolator(mode, False)
    try:
        site.run(it, mode, v.copy(), grid)
    except Exception as ex:
        if type(ex).__name__ == 'ApplicationException':
            return None
        return f'{what}: unexpected {exc(ex)}'
    return f'{what}: a table built for something else was used'
