"""C08: tables of the nearest and inverse distance modes against brute force."""
import math
import random
import numpy as np
from common import *
from env import Env
from tables import Site, values_of

RULE = ('random source grids (regular, rotated-like irregular, thinned), targets on, near, between and far from source points, rotated targets, float32 coordinates, any number of '
        'splits; every cell against all source points by scalar arithmetic; builds through Interpolator with target cells without coordinates; coordinates and values of different '
        'number; non-trivial: cells both in and out of range')
RADIUS = 6371229.0


def unit(lat, lon):
    a, o = math.radians(lat), math.radians(lon)
    return math.cos(o) * math.cos(a), math.sin(o) * math.cos(a), math.sin(a)


def regular(lat, lon, plat, plon):
    """regular position of rotated coordinates (southern pole of the rotated system at plat, plon)"""
    x, y, z = unit(lat, lon)
    t, f = math.radians(90 + plat), math.radians(plon)
    x, z = x * math.cos(t) - z * math.sin(t), x * math.sin(t) + z * math.cos(t)
    return x * math.cos(f) - y * math.sin(f), x * math.sin(f) + y * math.cos(f), z


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        kind = rng.choice(['table'] * 6 + ['mismatch']) if k % 25 else 'interpolator'
        mode = rng.choice(['nearest', 'invdist'])
        if kind == 'interpolator':
            yield dict(kind=kind, mode=mode, rows=rng.randint(1, 3), cols=rng.randint(1, 4), holes=[rng.random() < 0.3 for _ in range(24)], seed=rng.randrange(10 ** 6))
        elif kind == 'mismatch':
            yield dict(kind=kind, mode=mode, n=rng.randint(5, 12), m=rng.choice([1, 4, 13, 20]), seed=rng.randrange(10 ** 6))
        else:
            yield dict(kind=kind, mode=mode, nj=rng.randint(2, 5), ni=rng.randint(2, 6), rows=rng.randint(1, 4), cols=rng.randint(1, 5), rotated=rng.random() < 0.3, f4=rng.random() < 0.2,
                       splits=rng.choice([None, None, 1, 2, 3, 7]), mask=rng.random() < 0.3, irregular=rng.random() < 0.4, fine=rng.random() < 0.2, seed=rng.randrange(10 ** 6))


def nontrivial(c):
    return c['kind'] == 'table'


def build(c):
    r = random.Random(c['seed'])
    la0, lo0, d = r.uniform(-60, 60), r.choice([r.uniform(0, 350), 178.0, 0.0]), r.choice([0.1, 0.5, 1.0, 2.5])
    if c.get('fine') and not c['f4']:
        d = r.choice([1e-6, 1e-4, 1e-2])      # points from a tenth of a metre apart
    slat = np.array([[la0 - i * d for j in range(c['ni'])] for i in range(c['nj'])]).ravel()
    slon = np.array([[lo0 + j * d for j in range(c['ni'])] for i in range(c['nj'])]).ravel()
    if c['irregular']:
        slat = slat + np.array([r.uniform(-0.3, 0.3) * d for _ in slat])
        slon = slon + np.array([r.uniform(-0.3, 0.3) * d for _ in slon])
    n = slat.size
    pole = (r.uniform(-80, -10), r.uniform(0, 60)) if c['rotated'] else (-90.0, 0.0)
    tlat, tlon = np.zeros((c['rows'], c['cols'])), np.zeros((c['rows'], c['cols']))
    for i in range(c['rows']):
        for j in range(c['cols']):
            s = r.randrange(n)
            k = r.choice(['on', 'near', 'near', 'between', 'edge', 'far'])
            w = {'on': 0, 'near': 0.3, 'between': 0.8, 'edge': 3, 'far': 30}[k] * d
            la, lo = slat[s] + r.uniform(-w, w), slon[s] + r.uniform(-w, w)
            if c['rotated']:        # coordinates of that place in the rotated system
                x, y, z = unit(la, lo)
                t, f = math.radians(90 + pole[0]), math.radians(pole[1])
                x, y = x * math.cos(f) + y * math.sin(f), -x * math.sin(f) + y * math.cos(f)
                x, z = x * math.cos(t) + z * math.sin(t), -x * math.sin(t) + z * math.cos(t)
                la, lo = math.degrees(math.asin(max(-1.0, min(1.0, z)))), math.degrees(math.atan2(y, x))
            tlat[i, j], tlon[i, j] = la, lo
    if c['f4']:
        tlat, tlon = np.float32(tlat), np.float32(tlon)
    z = np.array([r.uniform(-10, 10) for _ in range(n)])
    if c['mask']:
        z = np.ma.masked_array(z, mask=[r.random() < 0.3 for _ in range(n)])
    return slat, slon, pole, tlat, tlon, z


def check(c):
    if c['kind'] == 'interpolator':
        return interpolator(c)
    from pyg2p.main.interpolation.scipy_interpolation_lib import ScipyInterpolation
    from pyg2p.exceptions import ApplicationException
    k = {'nearest': 1, 'invdist': 4}[c['mode']]
    if c['kind'] == 'mismatch':
        r = random.Random(c['seed'])
        la, lo = np.array([50 + i * 0.5 for i in range(c['n'])]), np.array([5 + i * 0.25 for i in range(c['n'])])
        if c['m'] == c['n']:
            return None
        try:
            S = ScipyInterpolation(lo, la, {'gridType': 'regular_ll', 'radius': RADIUS, 'Nj': 3}, np.zeros(c['m']), k, -9999.0, -1.0, mode=c['mode'])
            S.interpolate(np.array([[5.0, 6.0]]), np.array([[50.0, 51.0]]))
        except ApplicationException:
            return None
        except Exception as ex:
            return f'{c["n"]} source coordinates and {c["m"]} values: {exc(ex)}'
        return f'{c["n"]} source coordinates and {c["m"]} values are accepted'
    slat, slon, pole, tlat, tlon, z = build(c)
    n = slat.size
    if n < k:
        return None
    det = {'gridType': 'rotated_ll' if c['rotated'] else 'regular_ll', 'radius': RADIUS, 'Nj': c['nj'],
           'latitudeOfSouthernPoleInDegrees': pole[0], 'longitudeOfSouthernPoleInDegrees': pole[1]}
    S = ScipyInterpolation(slon, slat, det, z, k, -9999.0, -1.0, target_is_rotated=c['rotated'], mode=c['mode'], num_of_splits=c['splits'])
    _, w, ix = S.interpolate(tlon, tlat)
    nt = tlat.size
    if ix.shape != ((nt,) if k == 1 else (nt, k)) or w.shape != ix.shape:
        return f'table of shape {ix.shape} and {w.shape} for {nt} cells'
    P = [[v * RADIUS for v in unit(a, o)] for a, o in zip(slat, slon)]
    dist = lambda p, q: math.sqrt(sum((a - b) ** 2 for a, b in zip(p, q)))
    spacing = max(min(dist(p, q) for j, q in enumerate(P) if j != i) for i, p in enumerate(P))
    limit = spacing * (1 + 4 / c['nj'])
    tol = 3.0 if c['f4'] else 1e-6 if c.get('fine') else 1e-3           # metres
    for p in range(nt):
        i, j = divmod(p, c['cols'])
        la, lo = float(tlat[i, j]), float(tlon[i, j])
        x = [v * RADIUS for v in (regular(la, lo, *pole) if c['rotated'] else unit(la, lo))]
        d = sorted(dist(x, q) for q in P)
        row, ws = ([ix[p]], None) if k == 1 else (list(ix[p]), list(w[p]))
        what = f'cell ({la}, {lo}), closest source point at {d[0]:.3f} m, limit {limit:.3f} m'
        if d[0] > limit + tol:
            if any(q != n for q in row):
                return f'{what}: out of range but table has {row}'
            if ws is not None and not all(math.isnan(v) for v in ws):
                return f'{what}: out of range but weights {ws}'
            continue
        if d[0] > limit - tol:
            continue
        if any(not 0 <= q < n for q in row):
            return f'{what}: table has {row}, {n} source points'
        if len(set(row)) != k:
            return f'{what}: repeated source points {row}'
        got = [dist(x, P[q]) for q in row]
        if abs(got[0] - d[0]) > tol:
            return f'{what}: named point is {got[0]:.3f} m away'
        if k == 1:
            continue
        if any(abs(a - b) > tol for a, b in zip(sorted(got), d[:k])):
            return f'{what}: named points at {got}, closest {d[:k]}'
        if any(math.isnan(v) or v < 0 for v in ws) or abs(sum(ws) - 1) > 1e-5:
            return f'{what}: weights {ws}'
        if d[0] > 50 * tol:
            inv = [1 / v ** 2 for v in got]
            if any(abs(a - b / sum(inv)) > (5e-2 if c['f4'] else 1e-4) for a, b in zip(ws, inv)):
                return f'{what}: weights {ws}, expected {[b / sum(inv) for b in inv]}'
        elif not c['f4'] and ws[0] < 0.99 and d[1] > 100 * max(tol, d[0]):
            return f'{what}: on a source point but weights {ws}'
    return None


def interpolator(c):
    r = random.Random(c['seed'])
    with Env() as env:
        site = Site(c, env)
        la = np.array([[50.0 - 0.5 * i - 0.1 for _ in range(c['cols'])] for i in range(c['rows'])])
        lo = np.array([[5.0 + 0.5 * j + 0.2 for j in range(c['cols'])] for _ in range(c['rows'])])
        mv = -9999.0
        nt = la.size
        hl, ho = np.array(c['holes'][:nt]).reshape(la.shape), np.array(c['holes'][12:12 + nt]).reshape(la.shape)
        if (hl | ho).all():
            return None
        env.maps(np.where(hl, mv, la), np.where(ho, mv, lo))
        it = site.interpolator(c['mode'], True)
        v = np.array([r.uniform(1, 9) for _ in range(site.n)])
        out = values_of(it.interpolate(site.slat, site.slon, v.copy(), 'g$1', {'gridType': 'regular_ll', 'radius': RADIUS, 'Nj': site.nj}))
        omv = float(it.mv_output)
        for p, x in enumerate(out):
            hole = bool((hl | ho).ravel()[p])
            gone = x is None or float(x) == omv
            if hole != gone:
                return f'cell {p} {"without" if hole else "with"} coordinates has {x!r}'
        return None
