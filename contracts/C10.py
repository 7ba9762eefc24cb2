"""C10 contracts: geometry of the bilinear and triangulation modes."""
from contracts.scipylib import *
from pyvc.models.np_model import array

ASSUMPTIONS = [
    'coordinates are finite; reals instead of floats (orientation signs are exact)',
    'numpy.argsort returns a permutation that sorts (ties in any order), numpy.cross by definition',
    'scipy.optimize.fsolve and Delaunay are not under contract: tables of the bilinear, triangulation and bilinear_delaunay modes are only covered by the run-time contract',
]
LIB = 'pyg2p.main.interpolation.scipy_interpolation_lib'


def load():
    L = loader(modules())
    return L, L.load(LIB)


def pt(e, name):
    return [sreal_(e, name + 'y'), sreal_(e, name + 'x')]


def T2(p):
    return p[0].t, p[1].t


def area2(a, b, c):
    """twice the signed area of a triangle"""
    (ay, ax), (by, bx), (cy, cx) = T2(a), T2(b), T2(c)
    return (by - ay) * (cx - ax) - (bx - ax) * (cy - ay)


def forms(p, k):
    return array(list(p)) if k == 0 else list(p)


def truth(e, v):
    """python truth of a result"""
    return zb(v) if not isinstance(v, bool) else (T if v else F)


def triangle(e):
    L, m = load()
    q, a, b, c = pt(e, 'p'), pt(e, 'a'), pt(e, 'b'), pt(e, 'c')
    k = e.choose(2)
    A = area2(a, b, c)
    e.assume(A != 0)
    e.cover('pre')
    r, ex = call(m.isPointInTriangle, list(q), *[forms(x, k) for x in (a, b, c)])
    e.prove('the test does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    r = truth(e, r)
    u, v, w = area2(q, b, c), area2(a, q, c), area2(a, b, q)
    U, V, W, AA = [e.fresh(R, n) for n in 'uvwa']
    e.assume(zand(U == u, V == v, W == w, AA == A))
    e.prove('partial areas add up', U + V + W == AA)
    e.assume(U + V + W == AA)
    inside = zor(zand(AA > 0, U >= 0, V >= 0, W >= 0), zand(AA < 0, U <= 0, V <= 0, W <= 0))
    e.prove('a point of the closed triangle is accepted', zimp(inside, r))
    e.prove('a point outside the triangle is not accepted', zimp(znot(inside), znot(r)))
    e.cover('post')


def orientation(e):
    L, m = load()
    a, b, c = pt(e, 'a'), pt(e, 'b'), pt(e, 'c')
    e.cover('pre')
    r, ex = call(m.sign, list(a), list(b), list(c))
    e.prove('the orientation is computed', ex is None, extxt(ex))
    if ex is not None:
        return
    A = area2(a, b, c)
    s = lift(r).t
    e.prove('it is zero exactly for points on one line', (s == 0) == (A == 0))
    r2, _ = call(m.sign, list(b), list(a), list(c))
    e.prove('two orders have opposite signs', s == -lift(r2).t)
    e.prove('it is twice the signed area up to the sense of rotation', zor(s == A, s == -A))
    e.cover('post')


def convex(a, b, c, d):
    """strictly convex, vertices in order round it (either sense)"""
    o = [area2(a, b, c), area2(b, c, d), area2(c, d, a), area2(d, a, b)]
    return zor(zand(*[x > 0 for x in o]), zand(*[x < 0 for x in o]))


def identities(e):
    """areas seen from a point of a quadrilateral (used in `quadrilateral`)"""
    q, (a, b, c, d) = pt(e, 'p'), [pt(e, n) for n in 'abcd']
    e.cover('pre')
    s = [area2(a, b, q), area2(b, c, q), area2(c, d, q), area2(d, a, q)]
    g, p1, p2, q1, q2 = area2(a, c, q), area2(a, b, c), area2(c, d, a), area2(b, c, d), area2(d, a, b)
    for n, x in (('c d', p1 * s[2] - (s[1] * p2 - g * q1)), ('d a', p1 * s[3] - (s[0] * p2 - g * q2)), ('a b', p2 * s[0] - (s[3] * p1 + g * q2)), ('b c', p2 * s[1] - (s[2] * p1 + g * q1))):
        e.prove(f'area over {n}', z3.simplify(x, som=True) == 0)


def quadrilateral(e):
    L, m = load()
    q, P = pt(e, 'p'), [pt(e, n) for n in 'abcd']
    k = e.choose(2)
    e.assume(convex(*P))
    e.cover('pre')
    def contract(x, u, v, w):
        """isPointInTriangle by its contract (discharged in `triangle`)"""
        x, u, v, w = [[lift(y[0]), lift(y[1])] for y in (x, u, v, w)]
        A = area2(u, v, w)
        e.prove('triangles of the quadrilateral are not degenerate', A != 0)
        t = [area2(x, v, w), area2(u, x, w), area2(u, v, x)]
        return SBool(zor(zand(A > 0, *[y >= 0 for y in t]), zand(A < 0, *[y <= 0 for y in t])))
    if hasattr(m, 'isPointInTriangle'):
        m.isPointInTriangle = contract
    r, ex = call(m.isPointInQuadrilateral, list(q), *[forms(x, k) for x in P], True)
    e.prove('the test does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    r = truth(e, r)
    a, b, c, d = P
    s = [area2(a, b, q), area2(b, c, q), area2(c, d, q), area2(d, a, q)]
    dg = area2(a, c, q)
    abc, cda = area2(a, b, c), area2(c, d, a)
    # facts about the partial areas (each an identity of polynomials)
    S = [e.fresh(R, 's') for _ in range(4)]
    G, P1, P2 = e.fresh(R, 'g'), e.fresh(R, 'abc'), e.fresh(R, 'cda')
    e.assume(zand(*[x == y for x, y in zip(S, s)], G == dg, P1 == abc, P2 == cda))
    e.prove('partial areas of the first triangle', S[0] + S[1] - G == P1)
    e.prove('partial areas of the second triangle', S[2] + S[3] + G == P2)
    e.assume(zand(S[0] + S[1] - G == P1, S[2] + S[3] + G == P2))
    Q1, Q2 = e.fresh(R, 'bcd'), e.fresh(R, 'dab')
    e.assume(zand(Q1 == area2(b, c, d), Q2 == area2(d, a, b)))
    for _, x, y in (('c d', P1 * S[2], S[1] * P2 - G * Q1), ('d a', P1 * S[3], S[0] * P2 - G * Q2), ('a b', P2 * S[0], S[3] * P1 + G * Q2), ('b c', P2 * S[1], S[2] * P1 + G * Q1)):
        e.assume(x == y)
    e.assume(zor(zand(P1 > 0, P2 > 0, Q1 > 0, Q2 > 0), zand(P1 < 0, P2 < 0, Q1 < 0, Q2 < 0)))      # convex
    inside = zor(zand(P1 > 0, *[x >= 0 for x in S]), zand(P1 < 0, *[x <= 0 for x in S]))
    e.prove('a point outside the quadrilateral is not accepted', zimp(znot(inside), znot(r)))
    e.prove('a point of the closed quadrilateral is accepted', zimp(inside, r))
    e.cover('post')


def crossing(e):
    L, m = load()
    a, b, c, d = [pt(e, n) for n in 'abcd']
    e.cover('pre')
    r, ex = call(m.intersection, [array(a), array(b)], [array(c), array(d)])
    e.prove('the crossing is computed', ex is None, extxt(ex))
    if ex is not None:
        return
    o = [area2(a, b, c), area2(a, b, d), area2(c, d, a), area2(c, d, b)]
    O = [e.fresh(R, 'o') for _ in o]
    e.assume(zand(*[x == y for x, y in zip(O, o)]))
    e.prove('areas on both sides', O[0] - O[1] == O[3] - O[2])
    cross = zor(zand(O[0] > 0, O[1] < 0), zand(O[0] < 0, O[1] > 0))
    cross = zand(cross, zor(zand(O[2] > 0, O[3] < 0), zand(O[2] < 0, O[3] > 0)))
    if r is None:
        e.prove('segments that cross between their ends have a crossing', znot(cross))
    else:
        e.prove('segments without common inner point have no crossing', cross)
        x = [asarr(r).at(0), asarr(r).at(1)]
        e.prove('the crossing lies on the first segment', area2(a, b, x) == 0)
        e.prove('the crossing lies on the second segment', area2(c, d, x) == 0)
    e.cover('post')


def isconvex(e):
    L, m = load()
    P = [pt(e, n) for n in 'abcd']
    e.cover('pre')
    r, ex = call(m.isConvexQuadrilateral, *[array(x) for x in P])
    e.prove('the test does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    r = truth(e, r)
    a, b, c, d = P
    o = [area2(a, b, c), area2(b, c, d), area2(c, d, a), area2(d, a, b)]
    O = [e.fresh(R, 'o') for _ in o]
    e.assume(zand(*[x == y for x, y in zip(O, o)]))
    e.prove('triangles cover the quadrilateral twice', O[0] + O[2] == O[1] + O[3])
    e.assume(O[0] + O[2] == O[1] + O[3])
    cv = zor(zand(*[x > 0 for x in O]), zand(*[x < 0 for x in O]))
    e.prove('a convex quadrilateral is recognised', zimp(cv, r))
    e.prove('a quadrilateral that is not convex, flat or crossed is recognised', zimp(znot(cv), znot(r)))
    e.cover('post')


def clockwise(e):
    L, m = load()
    n = 4
    lat, lon = [sreal_(e, f'lat{i}') for i in range(n)], [sreal_(e, f'lon{i}') for i in range(n)]
    z, ix = [sreal_(e, f'z{i}') for i in range(n)], [sreal_(e, f'i{i}') for i in range(n)]
    for i in range(n):
        e.assume(zand(lat[i].t >= -200, lat[i].t <= 200, lon[i].t >= -400, lon[i].t <= 400))
        for j in range(i):
            e.assume(zand(ix[i].t != ix[j].t, zor(lat[i].t != lat[j].t, lon[i].t != lon[j].t)))
    c = array([[lat[i], lon[i], z[i], ix[i]] for i in range(n)])
    e.cover('pre')
    r, ex = call(m.get_clockwise_points, c)
    e.prove('the corners are ordered', ex is None, extxt(ex))
    if ex is not None:
        return
    e.prove('four corners come back', len(r) == 4)
    q = [[asarr(x).at(j) for j in range(4)] for x in r]
    who = [[e.known(q[j][3].t == ix[i].t) for i in range(n)] for j in range(n)]
    perm = [[i for i in range(n) if w[i]] for w in who]
    e.prove('the corners are the given ones', T if all(len(x) == 1 for x in perm) and sorted(x[0] for x in perm) == list(range(n)) else F)
    if not all(len(x) == 1 for x in perm):
        return
    perm = [x[0] for x in perm]
    e.prove('a corner keeps its position, value and index', zand(*[zand(q[j][0].t == lat[i].t, q[j][1].t == lon[i].t, q[j][2].t == z[i].t, q[j][3].t == ix[i].t) for j, i in enumerate(perm)]))
    a, b, cc, d = [[lat[i], lon[i]] for i in perm]
    # corners of a cell between two parallels (two on each, or the upper above the lower ones) and two meridians
    bl, br, tr, tl = T2(a), T2(b), T2(cc), T2(d)
    e.prove('left corners first and last, right ones between', zand(*[x[1] <= y[1] + z3.Q(4, 10) for x in (bl, tl) for y in (br, tr)]))
    e.prove('lower corners before upper ones on each side', zand(bl[0] <= tl[0], br[0] <= tr[0]))
    o = [area2(a, b, cc), area2(b, cc, d), area2(cc, d, a), area2(d, a, b)]
    grid = zand(bl[0] < tr[0], bl[0] < tl[0], br[0] < tr[0], br[0] < tl[0], bl[1] < br[1], bl[1] < tr[1], tl[1] < br[1], tl[1] < tr[1], bl[0] == br[0], tl[0] == tr[0])
    e.prove('corners of a grid cell come in one sense round it', zimp(grid, zor(zand(*[x < 0 for x in o]), zand(*[x > 0 for x in o]))))
    e.cover('post')


def warp(e):
    """_functionAlphaBeta is zero exactly where the bilinear combination of the corners is the target"""
    L, m = load()
    S = object.__new__(m.ScipyInterpolation)
    P = [[sreal_(e, f'{n}{j}') for j in range(4)] for n in 'abcd']
    S.p1, S.p2, S.p3, S.p4 = [array(p) for p in P]
    S.lat_in, S.lon_in = sreal_(e, 'lat'), sreal_(e, 'lon')
    al, be = sreal_(e, 'alpha'), sreal_(e, 'beta')
    e.cover('pre')
    r, ex = call(S._functionAlphaBeta, (al, be))
    e.prove('the equations are evaluated', ex is None, extxt(ex))
    if ex is not None:
        return
    r = list(r)
    w = [(1 - al.t) * (1 - be.t), al.t * (1 - be.t), al.t * be.t, (1 - al.t) * be.t]
    for j, x in ((0, S.lat_in), (1, S.lon_in)):
        lhs = sum([a * p[j].t for a, p in zip(w[1:], P[1:])], w[0] * P[0][j].t)
        e.prove('a zero reproduces the target', (lift(r[j]).t == 0) == (lhs == x.t))
    e.cover('post')


def positions(e):
    """get_correct_lats_lons: the same places of the globe, in the reference system of the target"""
    L, m = load()
    n = sint_(e, 'n')
    glat, glon = sym_array('glat', (n,)), sym_array('glon', (n,))
    ix = [sint_(e, f'i{j}') for j in range(4)]
    lat, lon = sreal_(e, 'lat'), sreal_(e, 'lon')
    e.assume(zand(n.t >= 4, *[zand(i.t >= 0, i.t < n.t) for i in ix], lat.t >= -90, lat.t <= 90, lon.t >= -180, lon.t <= 180))
    j = e.choose(4)
    for i in range(4):
        if i == j:
            e.assume(zand(glat.at(ix[i]).t >= -90, glat.at(ix[i]).t <= 90, glat.at(ix[i]).t != 0, glon.at(ix[i]).t >= -180, glon.at(ix[i]).t < 360))
        else:       # corners are looked at one by one: the others anywhere easy
            e.assume(zand(glat.at(ix[i]).t == lat.t, glon.at(ix[i]).t == lon.t, glat.at(ix[i]).t != 0))
    e.cover('pre')
    r, ex = call(m.get_correct_lats_lons, lat, lon, glat, glon, *ix)
    e.prove('positions are computed', ex is None, extxt(ex))
    if ex is not None:
        return
    la, lo = asarr(r[0]).at(j).t, asarr(r[1]).at(j).t
    a, o = glat.at(ix[j]).t, glon.at(ix[j]).t
    turn = lambda d: zor(*[d == 360 * k for k in (-2, -1, 0, 1, 2)])
    e.prove('a corner is the same place of the globe', zor(zand(la == a, turn(lo - o)), zand(zor(la == 180 - a, la == -180 - a), turn(lo - o - 180))))
    e.prove('a corner is at most 90 degrees of longitude away', zand(lo - lon.t <= 90, lon.t - lo <= 90))
    e.cover('post')


def vcs(tier):
    hs = [('orientation', orientation), ('triangle', triangle), ('areas', identities), ('quadrilateral', quadrilateral), ('crossing', crossing), ('convexity', isconvex), ('clockwise', clockwise), ('bilinear equations', warp),
          ('corner positions', positions)]
    return [dict(name=n, harness=h, covers=['pre'] if n == 'areas' else ['pre', 'post'], budget_s=200) for n, h in hs]
