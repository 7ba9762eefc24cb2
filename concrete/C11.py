"""C11: GRIB-API tables against the neighbours eccodes names for each cell."""
import random
import numpy as np
import eccodes
from common import *
from env import Env, grib_message

RULE = ('random source grids, targets on, between and outside source points with missing (any missing value) and NaN coordinates of any shape, plain and masked coordinate arrays; '
        'serial tables of real messages and of stubbed neighbour answers (repeated points, zero distances, errors) against a scalar table; a few parallel builds (forked workers) against the '
        'serial one; non-trivial: cells with and without an entry')
CASE_TIMEOUT = 120


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        yield dict(kind='parallel' if k % 60 == 5 else rng.choice(['real', 'stub']), mode=rng.choice(['nearest', 'invdist']), ni=rng.randint(2, 6), nj=rng.randint(2, 5),
                   rows=rng.randint(1, 5), cols=rng.randint(1, 5), mv=rng.choice([-9999.0, 0.0, 1e31, -1e20, 50.0, 5.0]), holes=rng.random() < 0.6, nans=rng.random() < 0.4,
                   masked=rng.random() < 0.2, far=rng.random() < 0.4, seed=rng.randrange(10 ** 6))


def nontrivial(c):
    return c['rows'] * c['cols'] > 2


def targets(c, r):
    sh = (c['rows'], c['cols'])
    la, lo = np.zeros(sh), np.zeros(sh)
    for i in range(sh[0]):
        for j in range(sh[1]):
            k = r.choice(['on', 'in', 'in', 'out' if c['far'] else 'in'])
            y, x = r.randrange(c['nj']), r.randrange(c['ni'])
            if k == 'on':
                la[i, j], lo[i, j] = 50.0 - y, 5.0 + x
            elif k == 'in':
                la[i, j], lo[i, j] = 50.0 - r.uniform(0, c['nj'] - 1), 5.0 + r.uniform(0, c['ni'] - 1)
            else:
                la[i, j], lo[i, j] = 50.0 - r.uniform(0, c['nj'] - 1) - r.choice([0, 40]), 5.0 + r.uniform(40, 90)
            for a in (la, lo):
                if c['holes'] and r.random() < 0.15:
                    a[i, j] = r.choice([c['mv'], c['mv'], -1e11])
                if c['nans'] and r.random() < 0.1:
                    a[i, j] = np.nan
    return la, lo


def expected(c, la, lo, find):
    """entries of the table, cell after cell"""
    out = {}
    for i in range(c['rows']):
        for j in range(c['cols']):
            y, x = float(la[i, j]), float(lo[i, j])
            if any(v != v or v <= -1e10 or v == c['mv'] for v in (y, x)):
                continue
            f = find(y, x)
            if f is None:
                continue
            if c['mode'] == 'nearest':
                out[i, j] = [(f[0][0], 1.0)]
                continue
            z = [k for k, (q, d) in enumerate(f) if d == 0]
            if z:
                out[i, j] = [(f[z[0]][0], 1.0)]
            else:
                s = sum(1 / d for _, d in f)
                out[i, j] = [(q, 1 / d / s) for q, d in f]
    return out


def compare(c, t, want):
    k = 1 if c['mode'] == 'nearest' else 4
    if len(t) != (3 if k == 1 else 10):
        return f'table of {len(t)} columns'
    if any(np.ma.is_masked(x) for x in t):
        return 'masked entries'
    t = [np.asarray(x) for x in t]
    if len({x.shape for x in t}) != 1 or t[0].ndim != 1:
        return f'columns of {[x.shape for x in t]}'
    seen = set()
    for p in range(len(t[0])):
        at = int(t[0][p]), int(t[1][p])
        if at not in want:
            return f'entry for cell {at}, which has no neighbours'
        if at in seen:
            return f'two entries for cell {at}'
        seen.add(at)
        ix = [int(t[2 + j][p]) for j in range(k)]
        co = [float(t[2 + k + j][p]) for j in range(k)] if k == 4 else [1.0]
        w = {}
        for q, v in zip(ix, co):
            if not v >= 0:
                return f'cell {at}: weights {co}'
            w[q] = w.get(q, 0.0) + v
        e = {}
        for q, v in want[at]:
            e[q] = e.get(q, 0.0) + v
        if abs(sum(co) - 1) > 1e-9 or any(abs(w.get(q, 0.0) - e.get(q, 0.0)) > 1e-9 for q in set(w) | set(e)):
            return f'cell {at}: points {ix} weights {co}, expected {want[at]}'
    if seen != set(want):
        return f'no entry for cells {sorted(set(want) - seen)}'
    return None


def check(c):
    from pyg2p.main.interpolation import grib_interpolation_lib as lib
    r = random.Random(c['seed'])
    la, lo = targets(c, r)
    if c['masked']:
        la, lo = np.ma.masked_values(la, c['mv']), np.ma.masked_values(lo, c['mv'])
        la, lo = np.ma.masked_array(la.data, mask=False), np.ma.masked_array(lo.data, mask=False)
    npo = 1 if c['mode'] == 'nearest' else 4
    fn = {'nearest': lib.grib_nearest, 'invdist': lib.grib_invdist}[c['mode']]
    before = la.copy(), lo.copy()
    if c['kind'] == 'stub':
        n = c['ni'] * c['nj']
        answers = {}

        def find(y, x):
            if (y, x) not in answers:
                q = random.Random(hash((c['seed'], y, x)))
                answers[y, x] = None if q.random() < 0.15 else [(q.randrange(n), q.choice([0.0, 0.0, q.uniform(1e-3, 90), q.uniform(1, 90), 1.0, 5.0])) for _ in range(4)]
                if answers[y, x] and q.random() < 0.5:
                    answers[y, x] = [(i, d or 2.5) for i, d in answers[y, x]]
            return answers[y, x]

        class Stub:
            GribInternalError = eccodes.GribInternalError

            @staticmethod
            def codes_grib_find_nearest(gid, y, x, is_lsm=False, npoints=1):
                if gid != 17:
                    raise AssertionError('another message')
                f = find(float(y), float(x))
                if f is None:
                    raise eccodes.OutOfAreaError(-35) if hasattr(eccodes, 'OutOfAreaError') else eccodes.GribInternalError(-35)
                return tuple(type('Bunch', (dict,), {})(index=i, distance=d, lat=y, lon=x, value=0.0) for i, d in f[:npoints])
        real, lib.eccodes = lib.eccodes, Stub
        try:
            t = fn(17, la, lo, c['mv'])
        except Exception as ex:
            return f'stubbed neighbours: {exc(ex)}'
        finally:
            lib.eccodes = real
        want = expected(c, before[0], before[1], find)
    else:
        gid = grib_message(ni=c['ni'], nj=c['nj'])

        def find(y, x):
            try:
                f = eccodes.codes_grib_find_nearest(gid, y, x, npoints=npo)
            except eccodes.GribInternalError:
                return None
            return [(q['index'], q['distance']) for q in f]
        try:
            t = fn(gid, la, lo, c['mv'])
            want = expected(c, before[0], before[1], find)
            if c['kind'] == 'parallel':
                p = {'nearest': lib.grib_nearest_parallel, 'invdist': lib.grib_invdist_parallel}[c['mode']](gid, la, lo, c['mv'])
                bad = compare(c, p, want)
                if bad:
                    return f'parallel: {bad}'
                if any(not np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-12, atol=0) for a, b in zip(t, p)):
                    return 'the parallel table differs from the serial one'
        except Exception as ex:
            return f'{c["kind"]}: {exc(ex)}'
        finally:
            eccodes.codes_release(gid)
    for a, b, n in zip((la, lo), before, ('latitudes', 'longitudes')):
        if not np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True):
            return f'target {n} changed'
    return compare(c, t, want)
