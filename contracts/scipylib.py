"""Contracts shared by C08, C09 and C10: scipy's KDTree and the geometry of positions on the sphere."""
from pyvc.harness import *
from pyvc.arr import sym_array, Arr, asarr, NOMASK, dimt, lin, full, elementwise
from pyvc.containers import CandInv, ArrInv, Inv, VDict, VList, iterm
from pyvc.runtime import ModelModule, Missing
from pyvc.core import _simp

POS = z3.DeclareSort('Position')
DIST = core.uf('neardist', POS, Z, R)          # (position, j) -> distance of the j-th closest source point
NEAR = core.uf('nearidx', POS, Z, Z)           # (position, j) -> the j-th closest source point
RANK = core.uf('nearrank', POS, Z, Z)          # (position, source point) -> its place in that order
CHORD = core.uf('chord', POS, Z, R)            # euclidean distance of a position and a source point
MKPOS = core.uf('pos', R, R, R, POS)


class KDTree:
    """assumed contract of scipy.spatial.cKDTree: the points of the tree ordered by their euclidean distance from a query point
    (the order is a function of the query point; ties in some fixed order)"""

    def __init__(self, pts, leafsize=10, **k):
        e = eng()
        pts = asarr(pts).snap()
        if len(pts.shape) != 2 or not isinstance(pts.shape[1], int) or pts.shape[1] != 3:
            raise Unsupported('KDTree dimension')
        self.pts = pts
        self.n = pts.shape[0]
        self.queries = []
        e.state['tree'] = self
        x = z3.Const('x!tree', POS)
        i, j, s = z3.Ints('i!tree j!tree s!tree')
        n = dimt(self.n)
        d, ix = DIST(x, j), NEAR(x, j)
        jn = zand(j >= 0, j < n)
        e.assume(z3.ForAll([x, j], zimp(jn, zand(d >= 0, ix >= 0, ix < n, d == CHORD(x, ix))), patterns=[d]))
        e.assume(z3.ForAll([x, j], zimp(jn, zand(ix >= 0, ix < n)), patterns=[ix]))
        e.assume(z3.ForAll([x, i, j], zimp(zand(jn, i >= 0, i < j), zand(DIST(x, i) <= d, NEAR(x, i) != ix)), patterns=[z3.MultiPattern(DIST(x, i), d)]))
        c, r = CHORD(x, s), RANK(x, s)
        e.assume(z3.ForAll([x, s], zimp(zand(s >= 0, s < n), zand(r >= 0, r < n, NEAR(x, r) == s, DIST(x, r) == c)), patterns=[c]))

    def query(self, q, k=1, workers=1, **kw):
        if kw:
            raise Unsupported('KDTree.query keywords')
        e = eng()
        q = asarr(q).snap()
        if len(q.shape) != 2 or not isinstance(q.shape[1], int) or q.shape[1] != 3:
            raise ValueError('x must consist of vectors of length 3')
        Q = e.fresh_fn('query', Z, POS)
        if e.state.get('cell') is not None:
            p0, X = e.state['cell']

            def pos(p):
                if _simp(p).eq(_simp(p0)):
                    e.axiom(('qcell', len(self.queries)), X == MKPOS(*[q.at(p0, c).t for c in range(3)]))
                    return X
                return Q(p)
        elif e.state.get('congruent'):
            def pos(p):
                t = Q(p)
                e.axiom(('qpos', t.get_id()), t == MKPOS(*[q.at(p, c).t for c in range(3)]))
                return t
        else:
            pos = lambda p: Q(p)
        if k == 1:
            r = (Arr((q.shape[0],), lambda p: SReal(DIST(pos(p), 0), F, core.I0, True)), Arr((q.shape[0],), lambda p: SInt(NEAR(pos(p), 0), True), 'i8'))
        else:
            r = (Arr((q.shape[0], k), lambda p, j: SReal(DIST(pos(p), j), F, core.I0, True)), Arr((q.shape[0], k), lambda p, j: SInt(NEAR(pos(p), j), True), 'i8'))
        self.queries.append((k, q, pos))
        return r

    def mention(self, p):
        """let the solver look at row p of every query so far"""
        e = eng()
        for k, q, pos in self.queries:
            for j in range(k):
                e.assume(zimp(zand(p >= 0, p < dimt(q.shape[0])), DIST(pos(p), j) >= 0))

def position(lat, lon, radius):
    """the point of the sphere at (lat, lon) in degrees"""
    la, lo = ew('radians', lat), ew('radians', lon)
    cl = ew('cos', la)
    return [ew('*', radius, v).t for v in (ew('*', ew('cos', lo), cl), ew('*', ew('sin', lo), cl), ew('sin', la))]


def unrotated(lat, lon, radius, plat, plon):
    """the regular position of rotated coordinates: the inverse of the rotation that takes the regular system to the rotated one,
    [cos t cos f, cos t sin f, sin t; -sin f, cos f, 0; -sin t cos f, -sin t sin f, cos t] with t = 90 + latitude, f = longitude of the southern pole"""
    x, y, z = [SReal(v) for v in position(lat, lon, radius)]
    t, f = ew('radians', ew('+', lift(90), plat)), ew('radians', plon)
    # the code computes with the opposite angles: sin(-a) = -sin(a), cos(-a) = cos(a)
    ct, st, cf, sf = ew('cos', t), ew('sin', t), ew('cos', f), ew('sin', f)
    e = eng()
    for a in (t, f):
        m = ew('neg', a)
        e.assume(zand(ew('sin', m).t == -ew('sin', a).t, ew('cos', m).t == ew('cos', a).t))
    rx = ct * cf * x - sf * y - st * cf * z
    ry = ct * sf * x + cf * y - st * sf * z
    rz = st * x + ct * z
    return [rx.t, ry.t, rz.t]


class Rotated(Missing):
    pass


def modules():
    """third-party modules the interpolation library imports"""
    return {'scipy': lambda l: ModelModule('scipy', {}), 'scipy.optimize': lambda l: ModelModule('scipy.optimize', dict(fsolve=Missing('fsolve'))),
            'scipy.spatial': lambda l: ModelModule('scipy.spatial', dict(cKDTree=KDTree, KDTree=KDTree, Delaunay=Missing('Delaunay'))),
            'scipy.integrate': lambda l: ModelModule('scipy.integrate', dict(quad=Missing('quad')))}


class Problem:
    """arbitrary source grid and target coordinates"""

    def __init__(self, e, k, masked=False, rotated=False, f4=False):
        self.n, self.rows, self.cols = sint_(e, 'n'), sint_(e, 'rows'), sint_(e, 'cols')
        e.assume(zand(self.n.t >= max(k, 2), self.rows.t >= 1, self.cols.t >= 1))
        self.slat, self.slon = sym_array('slat', (self.n,)), sym_array('slon', (self.n,))
        dt = 'f4' if f4 else 'f8'
        self.tlat, self.tlon = sym_array('tlat', (self.rows, self.cols), dt), sym_array('tlon', (self.rows, self.cols), dt)
        for a in (self.slat, self.slon, self.tlat, self.tlon):
            a.frozen = 'the coordinates'
        self.z = sym_array('z', (self.n,), masked=masked)
        self.r, self.nj = sreal_(e, 'radius'), sint_(e, 'Nj')
        e.assume(zand(self.r.t > 0, self.nj.t >= 1))
        self.plat, self.plon = sreal_(e, 'pole_lat'), sreal_(e, 'pole_lon')
        self.rotated = rotated
        self.details = VDict({'gridType': 'rotated_ll' if rotated else 'regular_ll', 'radius': self.r, 'Nj': self.nj,
                              'latitudeOfSouthernPoleInDegrees': self.plat, 'longitudeOfSouthernPoleInDegrees': self.plon})
        self.mv = sreal_(e, 'mv')
        self.k = k

    def load(self):
        self.L = loader(modules())
        self.m = self.L.load('pyg2p.main.interpolation.scipy_interpolation_lib')
        return self.m

    def make(self, mode, **kw):
        return self.m.ScipyInterpolation(self.slon, self.slat, self.details, self.z, self.k, self.mv, sreal_(eng(), 'mvs'), target_is_rotated=self.rotated, mode=mode, **kw)

    def source(self, s):
        return position(self.slat.at(s), self.slon.at(s), self.r)

    def target(self, R_, C_):
        la, lo = self.tlat.at(R_, C_), self.tlon.at(R_, C_)
        return unrotated(la, lo, self.r, self.plat, self.plon) if self.rotated else position(la, lo, self.r)

    def cell(self):
        """an arbitrary target cell: (row, column, flat index)"""
        e = eng()
        R_, C_ = e.fresh(Z, 'row'), e.fresh(Z, 'col')
        e.assume(zand(R_ >= 0, R_ < self.rows.t, C_ >= 0, C_ < self.cols.t))
        p = lin(R_, C_, self.cols.t)
        e.assume(zand(p >= 0, p < (self.rows * self.cols).t))
        return R_, C_, p

    def some_source(self):
        e = eng()
        s = e.fresh(Z, 'src')
        e.assume(zand(s >= 0, s < self.n.t))
        return s
__all__ = [n for n in dir() if not n.startswith('__')]
