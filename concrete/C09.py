"""C09: tables of the angular distance (ADW) and correlation distance decay (CDD) modes against scalar arithmetic."""
import math
import random
import numpy as np
from common import *

RULE = ('random source points (grids, stations, a single row, clusters, points around the target so that few or many lie within the radius), targets on, near and far from them; Shepard, Hofstra, '
        'MixHofstraShepard (any constants, All/OnlyTOP10, options in any order) and NewEtAl; with and without broadcasting, any number of splits; every cell by scalar arithmetic; '
        'compiled (numba) and plain; non-trivial: more than one weight')
RADIUS = 6371229.0
CASE_TIMEOUT = 120
SCHEMES = ['Shepard', 'Hofstra', 'MixHofstraShepard', 'NewEtAl']
COMPILED = ['adw_compute_weights_from_cutoff_distances', 'cdd_hofstra_compute_weights_from_cutoff_distances', 'cdd_hofstra_shepard_compute_weights_from_cutoff_distances',
            'cdd_newetal_compute_weights_from_cutoff_distances', 'adw_and_cdd_compute_weights_directional_in_broadcasting']


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        scheme = rng.choice(SCHEMES)
        jit = False
        if 400 <= k < 404 or k % 4000 < 4 and k > 404:
            scheme, jit = SCHEMES[k % 4], True
        yield dict(scheme=scheme, jit=jit, n=rng.randint(11, 30), lay=rng.choice(['random', 'random', 'grid', 'row', 'cluster']), rows=rng.randint(2, 4) if scheme == 'NewEtAl' else rng.randint(1, 4),
                   cols=rng.randint(2, 4), broad=rng.random() < 0.5, splits=rng.choice([None, None, 1, 2, 3, 9]), default=rng.random() < 0.3, m=rng.choice([1, 2, 4, 7.5]), mins=rng.randint(1, 9),
                   ratio=rng.choice([1 / 3, 0.2, 0.75]), wmode=rng.choice(['All', 'OnlyTOP10']), order=rng.random() < 0.5, reach=rng.choice([0.3, 1.0, 3.0, 50.0]), on=rng.random() < 0.4,
                   seed=rng.randrange(10 ** 6))


def nontrivial(c):
    return True


def unit(lat, lon):
    a, o = math.radians(lat), math.radians(lon)
    return math.cos(o) * math.cos(a), math.sin(o) * math.cos(a), math.sin(a)


def site(c):
    r = random.Random(c['seed'])
    n = c['n']
    la0, lo0 = r.uniform(-50, 50), r.uniform(-100, 100)
    if c['lay'] == 'grid':
        w = r.randint(4, 6)
        P = [(la0 - 0.5 * (i // w), lo0 + 0.5 * (i % w)) for i in range(n)]
    elif c['lay'] == 'row':
        P = [(la0, lo0 + 0.3 * i) for i in range(n)]
    elif c['lay'] == 'cluster':
        P = [(la0 - r.uniform(0, 0.3 if i % 3 else 3), lo0 + r.uniform(0, 0.3 if i % 3 else 3)) for i in range(n)]
    else:
        P = [(la0 - r.uniform(0, 3), lo0 + r.uniform(0, 3)) for i in range(n)]
    d = r.choice([0.25, 0.5, 1.0])
    oy, ox = r.uniform(-0.2, 0.2), r.uniform(-0.2, 0.2)
    if c['on']:
        s = P[r.randrange(n)]
        oy, ox = s[0] - la0, s[1] - lo0
    tlat = np.array([[la0 + oy - i * d for j in range(c['cols'])] for i in range(c['rows'])])
    tlon = np.array([[lo0 + ox + j * d for j in range(c['cols'])] for i in range(c['rows'])])
    z = np.array([r.uniform(-10, 10) for _ in P])
    cdd = np.array([[r.uniform(0.2, 1.5) * 100 * c['reach'] for _ in range(c['cols'])] for _ in range(c['rows'])])
    return np.array([p[0] for p in P]), np.array([p[1] for p in P]), tlat, tlon, z, cdd


def decay(c, d, p, rref, cdd, at, cut):
    """distance weights of one cell (d in order), or None when a threshold is too close to call"""
    near = lambda a, b: abs(a - b) <= 1e-9 * max(abs(a), abs(b))
    if c['scheme'] == 'Shepard':
        if near(d[3], rref) or near(d[9], rref):
            return None
        r = d[4] if d[3] > rref else rref if d[9] > rref else d[10]
        return [1 / v if v <= r / 3 else 27 / (4 * r) * (v / r - 1) ** 2 if v <= r else 0.0 for v in d]
    if c['scheme'] == 'Hofstra':
        R = cdd[p] * 1000
        if any(near(v, R) for v in d):
            return None
        return [math.exp(-4 * v / R) if v <= R and d[2] <= R else 0.0 for v in d]
    if c['scheme'] == 'NewEtAl':
        out = []
        for v, q in zip(d, at):
            R = q * 1000
            if near(v, R):
                return None
            out.append(math.exp(-4 * v / R) if v <= R else 0.0)
        return out
    m, mins, ratio = (4, 4, 1 / 3) if c['default'] else (c['m'], c['mins'], c['ratio'])
    R = cdd[p] * 1000
    if near(d[mins - 1], R) or near(d[9], R):
        return None
    r = d[mins] if d[mins - 1] > R else R if d[9] > R else d[10]
    if r <= 1e-6:
        return None
    s = [math.exp(-m * v / r) if v <= r * ratio else (v / r - 1) ** 2 * math.exp(-m * ratio) / (ratio - 1) ** 2 if v <= r else 0.0 for v in d]
    if not c['default'] and c['wmode'] == 'OnlyTOP10':
        o = sorted(range(11), key=lambda j: s[j])
        if s[o[0]] == s[o[1]] or near(s[o[0]], s[o[1]]):
            cut.append(s[o[0]])       # a tie: any of them may be dropped
        s[o[0]] = 0.0
    return s


def build(c, m, broad, splits, S):
    slat, slon, tlat, tlon, z, cdd = S
    opts = None
    if not c['default']:
        items = [('m_const', c['m']), ('min_num_of_station', c['mins']), ('radius_ratio', c['ratio']), ('weights_mode', c['wmode'])]
        opts = dict(items[::-1] if c['order'] else items)
    mode = 'adw' if c['scheme'] == 'Shepard' else 'cdd'

    class Reader:
        def __init__(self, path):
            assert path in ('/maps/cdd.nc', '/maps/cdd.map'), path
            self.values = cdd.copy()
    old = {k: getattr(m, k) for k in COMPILED + ['NetCDFReader', 'PCRasterReader']}
    try:
        m.NetCDFReader = m.PCRasterReader = Reader
        if not c['jit']:
            for k in COMPILED:
                setattr(m, k, getattr(old[k], 'py_func', old[k]))
        I = m.ScipyInterpolation(slon, slat, {'gridType': 'regular_ll', 'radius': RADIUS, 'Nj': 5}, z, 11, -9999.0, -1.0, mode=mode, cdd_map='/maps/cdd.nc', cdd_mode='' if mode == 'adw' else c['scheme'],
                                 cdd_options=opts, use_broadcasting=broad, num_of_splits=splits)
        return I.interpolate(tlon.copy(), tlat.copy())
    finally:
        for k, v in old.items():
            setattr(m, k, v)


def check(c):
    from pyg2p.main.interpolation import scipy_interpolation_lib as m
    S = site(c)
    slat, slon, tlat, tlon, z, cdd = S
    try:
        with np.errstate(all='ignore'):
            res, w, ix = build(c, m, c['broad'], c['splits'], S)
    except Exception as e:
        return f'{c["scheme"]}: {exc(e)}'
    nt = tlat.size
    if w.shape != (nt, 11) or ix.shape != (nt, 11) or res.shape != (nt,):
        return f'table of shape {w.shape}, {ix.shape}, result {res.shape} for {nt} cells'
    P = [[v * RADIUS for v in unit(a, o)] for a, o in zip(slat, slon)]
    T = [(float(a), float(o)) for a, o in zip(tlat.ravel(), tlon.ravel())]
    D = [[math.dist([v * RADIUS for v in unit(*t)], q) for q in P] for t in T]
    rref = sum(sorted(d)[6] for d in D) / nt
    for p, t in enumerate(T):
        what = f'{c["scheme"]}, cell {t}'
        row, got = [int(j) for j in ix[p]], [float(v) for v in w[p]]
        if any(not 0 <= j < len(P) for j in row) or len(set(row)) != 11:
            return f'{what}: neighbours {row}'
        d = [D[p][j] for j in row]
        if any(abs(a - b) > 1e-3 for a, b in zip(sorted(d), sorted(D[p])[:11])):
            return f'{what}: neighbours at {d} are not the closest'
        d = sorted(d) if all(abs(a - b) < 1e-3 for a, b in zip(d, sorted(d))) else d
        if d != sorted(d):
            return f'{what}: neighbours not in order of distance'
        if c['scheme'] == 'Shepard' and d[0] <= 1e-6:
            if d[0] <= 1e-10 and (got[0] != 1 or any(v != 0 for v in got[1:]) or float(res[p]) != z[row[0]]):
                return f'{what} on a source point has weights {got}, value {res[p]}'
            continue
        at = None
        if c['scheme'] == 'NewEtAl':
            q = [((tlat[0, 0] - slat[j]) / (tlat[0, 0] - tlat[1, 0]), (tlon[0, 0] - slon[j]) / (tlon[0, 0] - tlon[0, 1])) for j in row]
            if any(min(abs(v - round(v)) for v in u) < 1e-9 for u in q):
                continue
            at = [cdd[min(max(int(y), 0), cdd.shape[0] - 1), min(max(int(x), 0), cdd.shape[1] - 1)] for y, x in q]
        cut = []
        s = decay(c, d, p, rref, cdd.ravel(), at, cut)
        if s is None:
            continue
        nums = all(v == v and abs(v) != math.inf for v in got)
        if nums and (any(v < 0 for v in got) or abs(sum(got) - 1) > 1e-9):
            return f'{what}: weights {got} are not convex'
        if max(s) == 0:
            if any(v == v for v in got):
                return f'{what}: no neighbour has a distance weight, weights {got}'
            continue
        if max(s) < 1e-12 * max(1, 1 / d[0] if c['scheme'] == 'Shepard' and d[0] else 1):
            continue
        if not nums:
            return f'{what}: weights {got}, distance weights {s}'
        if cut and cut[0] > 1e-12 * max(s):
            heavy = max(range(11), key=lambda j: s[j])
            if s[heavy] > cut[0] * (1 + 1e-9) and got[heavy] == 0:
                return f'{what}: the heaviest neighbour is dropped: {got}'
            continue
        v = [(t[0] - slat[j], t[1] - slon[j]) for j in row]
        L = [math.hypot(*u) for u in v]
        wd, noise = [], False
        for i in range(11):
            den = sum(s[j] for j in range(11) if j != i)
            if den == 0 or any(L[j] == 0 for j in range(11)):
                wd.append(1.0)
                continue
            cs = [(1 - (v[i][0] * v[j][0] + v[i][1] * v[j][1]) / (L[i] * L[j])) * s[j] for j in range(11) if j != i]
            wd.append(sum(cs) / den)
        if c['scheme'] != 'Shepard':
            if abs(sum(wd)) < 1e-9:
                noise = True        # all neighbours in one direction: rounding decides
            else:
                wd = [u / sum(wd) for u in wd]
        if noise and c['lay'] != 'row':
            continue
        base = [u * u for u in s] if c['scheme'] == 'Shepard' else s
        W = [a * (1 + b) for a, b in zip(base, wd)]
        if noise:
            if any(abs(a - b / sum(base)) > 0.7 for a, b in zip(got, base)):
                return f'{what}: weights {got}, all neighbours in one direction, distance weights {base}'
            continue
        W = [u / sum(W) for u in W]
        if any(abs(a - b) > 1e-6 for a, b in zip(got, W)):
            return f'{what}: weights {got}, expected {W}'
        val = sum(a * z[j] for a, j in zip(W, row))
        if abs(val - float(res[p])) > 1e-4:
            return f'{what}: value {res[p]}, expected {val}'
    return None
