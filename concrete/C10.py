"""C10: geometry helpers against exact rational arithmetic; bilinear and triangulation tables."""
import math
import random
from fractions import Fraction as Q
import numpy as np
from common import *

RULE = ('points, triangles and quadrilaterals on small grids (degenerate positions, edges, vertices) and at random, exact rational oracle; corners of grid cells in any order; '
        'tables of the bilinear, triangulation and bilinear_delaunay modes for regular source grids on both hemispheres, near and across the date line, targets of any shape (one cell, one row, '
        'latitudes varying along rows), inside and outside the source grid; non-trivial: tables')
CASE_TIMEOUT = 100
RADIUS = 6371229.0


def cases(rng, tier):
    k = 0
    while True:
        k += 1
        if k % 3 == 0:
            yield dict(kind='table', mode=rng.choice(['bilinear', 'triangulation', 'bilinear_delaunay']), ni=rng.randint(5, 9), nj=rng.randint(5, 9), rows=rng.choice([1, 1, 2, 3, 7]), cols=rng.choice([1, 1, 2, 4]),
                       lat0=rng.choice([50.0, 50.0, 3.0, -30.0, 0.0, 2.5, 70.0]), lon0=rng.choice([5.0, 0.0, -20.0, 170.0 - 1e-9, 100.0]), d=rng.choice([0.5, 1.0]), skew=rng.random() < 0.4, out=rng.random() < 0.3, reduced=rng.random() < 0.3,
                       glob=rng.random() < 0.15, seed=rng.randrange(10 ** 6))
        else:
            yield dict(kind=rng.choice(['triangle', 'quad', 'cross', 'convex', 'clock', 'place', 'reflex']), fine=rng.random() < 0.5, seed=rng.randrange(10 ** 6))


def nontrivial(c):
    return c['kind'] == 'table'


def area(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def sg(x):
    return (x > 0) - (x < 0)


def inside(p, poly):
    """closed convex polygon, vertices in order"""
    s = {sg(area(poly[i], poly[(i + 1) % len(poly)], p)) for i in range(len(poly))}
    return not (1 in s and -1 in s)


def iscv(P):
    o = [sg(area(P[i], P[(i + 1) % 4], P[(i + 2) % 4])) for i in range(4)]
    return 0 not in o and len(set(o)) == 1


def check(c):
    import pyg2p.main.interpolation.scipy_interpolation_lib as m
    r = random.Random(c['seed'])
    if c['kind'] == 'table':
        return table(c, m, r)
    co = (lambda: float(r.randint(-3, 3))) if not c['fine'] else (lambda: r.randint(-2 ** 16, 2 ** 16) / 2 ** 10)
    pt = lambda: (co(), co())
    ex = lambda P: [tuple(Q(v) for v in p) for p in P]
    ar = lambda p: np.array(p)
    if c['kind'] == 'triangle':
        p, a, b, d = pt(), pt(), pt(), pt()
        if r.random() < 0.3:
            k = r.choice([0, 0.25, 0.5, 1])
            p = tuple(k * x + (1 - k) * y for x, y in zip(a, b))
        P = ex([p, a, b, d])
        if area(*P[1:]) == 0 or not hasattr(m, 'isPointInTriangle'):
            return None
        w = inside(P[0], P[1:])
        g = bool(m.isPointInTriangle(list(p), ar(a), ar(b), ar(d)))
        return None if g == w else f'point {p} in triangle {a} {b} {d}: {g}'
    P = [pt() for _ in range(4)]
    E_ = ex(P)
    if c['kind'] == 'quad':
        p = pt()
        if not iscv(E_) or not hasattr(m, 'isPointInQuadrilateral'):
            return None
        if r.random() < 0.3:
            k = r.choice([0, 0.25, 0.5, 1])
            p = tuple(k * x + (1 - k) * y for x, y in zip(P[0], P[r.choice([1, 2, 3])]))
        w = inside(ex([p])[0], E_)
        g = bool(m.isPointInQuadrilateral(list(p), *[ar(x) for x in P], True))
        return None if g == w else f'point {p} in quadrilateral {P}: {g}'
    if c['kind'] == 'cross':
        if not hasattr(m, 'intersection'):
            return None
        a, b, d, f = E_
        w = area(a, b, d) * area(a, b, f) < 0 and area(d, f, a) * area(d, f, b) < 0
        g = m.intersection([ar(P[0]), ar(P[1])], [ar(P[2]), ar(P[3])])
        if (g is not None) != w:
            return f'segments {P[:2]} and {P[2:]}: crossing {g}'
        if w:
            den = area(d, f, a) - area(d, f, b)
            t = area(d, f, a) / den
            x = [float(u + t * (v - u)) for u, v in zip(a, b)]
            if any(abs(u - v) > 1e-9 * (1 + abs(v)) for u, v in zip(g, x)):
                return f'segments {P[:2]} and {P[2:]}: crossing {g}, expected {x}'
        return None
    if c['kind'] == 'reflex':
        if not hasattr(m, 'getNonConvexVertex'):
            return None
        o = [area(*[E_[(i + j) % 4] for j in range(3)]) for i in range(4)]
        if sum(v < 0 for v in o) != 1 or 0 in o:     # one reflex vertex
            return None
        k = ([i for i in range(4) if o[i] < 0][0] + 1) % 4
        u, v, w = P[(k - 1) % 4], P[k], P[(k + 1) % 4]
        turn = (math.degrees(math.atan2(w[1] - v[1], w[0] - v[0]) - math.atan2(u[1] - v[1], u[0] - v[0]))) % 360
        if abs(turn - 180) < 1:
            return None
        Qs = [[p[0], p[1], 0.5, 10.0 + i] for i, p in enumerate(P)][::-1]        # corners come in the other sense
        g = m.getNonConvexVertex(*[np.array(q) for q in Qs])
        return None if g is not None and int(g) == 10 + k else f'quadrilateral {Qs}: vertex that is not convex is {g}'
    if c['kind'] == 'convex':
        if not hasattr(m, 'isConvexQuadrilateral'):
            return None
        g = bool(m.isConvexQuadrilateral(*[ar(x) for x in P]))
        return None if g == iscv(E_) else f'quadrilateral {P} convex: {g}'
    if c['kind'] == 'clock':
        if not hasattr(m, 'get_clockwise_points'):
            return None
        y, x, h, w = co(), co(), r.choice([0.5, 1.0, 3.0]), r.choice([0.5, 1.0, 3.0])
        s = r.choice([0, 0, 0.1 * w])
        P = [(y, x), (y, x + w), (y + h, x + w + s), (y + h, x + s)]
        rows = [[P[i][0], P[i][1], r.uniform(0, 9), float(7 + 3 * i)] for i in range(4)]
        q = rows[:]
        r.shuffle(q)
        g = [list(map(float, v)) for v in m.get_clockwise_points(np.array(q))]
        if sorted(g) != sorted(rows):
            return f'corners {q}: ordered {g}'
        o = [sg(area(*[g[(i + j) % 4][:2] for j in range(3)])) for i in range(4)]
        return None if len(set(o)) == 1 and 0 not in o else f'corners {q} ordered {g} do not go round'
    if c['kind'] == 'place':
        if not hasattr(m, 'get_correct_lats_lons'):
            return None
        n = 6
        la = np.array([r.choice([r.uniform(-90, 90), 89.5, -89.5, 45.0]) for _ in range(n)])
        lo = np.array([r.choice([r.uniform(-180, 359.9), 0.0, 180.0, 359.0, -179.0, 90.0, 270.0]) for _ in range(n)])
        y, x = r.uniform(-90, 90), r.choice([r.uniform(-180, 180), 180.0, -180.0, 0.0, 91.0, -91.0])
        ix = [r.randrange(n) for _ in range(4)]
        gla, glo = m.get_correct_lats_lons(y, x, la.copy(), lo.copy(), *ix)
        for j, i in enumerate(ix):
            A = place(la[i], lo[i])
            B = place(gla[j], glo[j])
            if max(abs(u - v) for u, v in zip(A, B)) > 1e-9:
                return f'corner ({la[i]}, {lo[i]}) of ({y}, {x}) put at ({gla[j]}, {glo[j]})'
            if abs(glo[j] - x) > 90 + 1e-9:
                return f'corner ({la[i]}, {lo[i]}) of ({y}, {x}) is {glo[j] - x} degrees of longitude away'
        return None


def place(la, lo):
    a, o = math.radians(la), math.radians(lo)
    return math.cos(a) * math.cos(o), math.cos(a) * math.sin(o), math.sin(a)


def merc(la):
    return math.asinh(math.tan(math.radians(la)))


def table(c, m, r):
    ni, nj, d = c['ni'], c['nj'], c['d']
    la0, lo0 = c['lat0'], c['lon0']
    if c['glob']:
        nj, ni, d = 17, 36, 10.0
        la0, lo0 = 80.0, -180.0
    slat = np.array([[la0 - i * d for j in range(ni)] for i in range(nj)]).ravel()
    slon = np.array([[lo0 + j * d for j in range(ni)] for i in range(nj)]).ravel()
    red = c.get('reduced') and not c['glob'] and c['mode'] == 'bilinear'
    if red:
        q = [(la0 - i * d, lo0 + j * (ni - 1) * d / (ni - 1 + i % 3 + 1)) for i in range(nj) for j in range(ni + i % 3 + 1)]
        slat, slon = np.array([x[0] for x in q]), np.array([x[1] for x in q])
    n = slat.size
    rows, cols = c['rows'], c['cols']
    H, W = (nj - 1) * d, (ni - 1) * d
    tlat, tlon = np.zeros((rows, cols)), np.zeros((rows, cols))
    for i in range(rows):
        y = r.uniform(0.1, H - 0.1)
        for j in range(cols):
            if c['skew']:
                y = r.uniform(0.1, H - 0.1)
            tlat[i, j] = la0 - y
            tlon[i, j] = lo0 + r.uniform(0.1, W - 0.1)
            if c['out'] and r.random() < 0.3:
                tlon[i, j] += 30 if not c['glob'] else 0
    z = np.array([r.uniform(-10, 10) for _ in range(n)])
    S = m.ScipyInterpolation(slon, slat, {'gridType': 'reduced_gg' if red else 'regular_ll', 'radius': RADIUS, 'Nj': nj}, z, {'bilinear': 4, 'triangulation': 3, 'bilinear_delaunay': 4}[c['mode']], -9999.0, -1.0, mode=c['mode'])
    try:
        res, w, ix = S.interpolate(tlon, tlat)
    except Exception as e:
        return f'{c["mode"]}: {exc(e)}'
    k = w.shape[1]
    for p in range(tlat.size):
        y, x = float(tlat.ravel()[p]), float(tlon.ravel()[p])
        what = f'cell ({y}, {x})'
        isin = slat.min() + 1e-6 < y < slat.max() - 1e-6 and slon.min() + 1e-6 < x < slon.max() - 1e-6
        ws, js = [float(v) for v in w[p]], [int(v) for v in ix[p]]
        if any(v != v for v in ws):
            if isin and not red:      # a reduced row may leave a cell without a quadrilateral: missing
                return f'{what} inside the source grid has no weights {ws}'
            continue
        if not isin and not c['glob']:
            if c['mode'] == 'bilinear':
                return f'{what} outside the source grid has weights {ws}'
            continue
        if any(not 0 <= j < n for j, v in zip(js, ws)):
            return f'{what}: points {js} of {n}'
        if any(v < -1e-9 for v in ws) or abs(sum(ws) - 1) > 1e-9:
            return f'{what}: weights {ws}'
        near = lambda o: o + 360 * round((x - o) / 360)
        P = [(slat[j], near(slon[j])) for j in js]
        if c['mode'] == 'triangulation' or (c['mode'] == 'bilinear_delaunay' and ws[3] == 0 and sum(v > 0 for v in ws[:3]) == 3):
            gy, want = sum(v * merc(a) for v, (a, _) in zip(ws, P)), merc(y)
        else:
            gy, want = sum(v * a for v, (a, _) in zip(ws, P)), y
        gx = sum(v * b for v, (_, b) in zip(ws, P))
        tol = 1e-6
        quad = c['mode'] != 'triangulation' and len(set(P)) == 4
        if quad and c['mode'] == 'bilinear_delaunay' or red and not (iscv([tuple(Q(v) for v in q) for q in P]) and inside((Q(y), Q(x)), [tuple(Q(v) for v in q) for q in P])):
            continue        # the pair of triangles need not be a convex quadrilateral
        if abs(gy - want) > tol or abs(gx - x) > tol:
            return f'{what}: points {P} weights {ws} give {gy} (expected {want}), {gx}'
    return None
