"""C09 contracts: angular distance (ADW, Shepard) and correlation distance decay (CDD) weights."""
from contracts.scipylib import *
from pyvc.models.np_model import array

ASSUMPTIONS = [
    'scipy.spatial.cKDTree.query returns the k closest points in order of their euclidean distance, a function of the query point (assumed contract)',
    'distances are not negative; numbers instead of floats (no rounding); exp is an uninterpreted function with exp > 0, exp(0) = 1 and exp(x) <= 1 for x <= 0',
    'numba.njit is taken as identity (compiled code is covered by the run-time contract)',
    'numpy.mean is a function of the values of its argument; numpy.argpartition as documented (ties in any order)',
    'the CDD map holds positive numbers, two-dimensional, read by NetCDFReader or PCRasterReader (their contracts: C20)',
    'the angular term is computed in the latitude-longitude plane, as the code documents; the thresholds of the radius rule are those documented step by step in the code',
]
LIB = 'pyg2p.main.interpolation.scipy_interpolation_lib'
K = 11


def load():
    L = loader(modules())
    return L, L.load(LIB)


def num(x):
    """a finite number"""
    x = core.toreal(x)
    return zand(znot(x.nan), x.inf == 0)


class Cells:
    """distances of any number of cells to their 11 neighbours, in order"""

    def __init__(self, e):
        self.n = sint_(e, 'cells')
        e.assume(self.n.t >= 1)
        self.d = sym_array('dist', (self.n, K))
        self.d.frozen = 'the distances'
        self.p = e.fresh(Z, 'cell')
        e.assume(zand(self.p >= 0, self.p < self.n.t))
        self.D = [self.d.at(self.p, j).t for j in range(K)]
        e.assume(zand(self.D[0] >= 0, *[a <= b for a, b in zip(self.D, self.D[1:])]))
        self.s = full((self.n, K), 0.0)


def within(D, r):
    """how many of the neighbours are within r"""
    return z3.Sum(*[z3.If(d <= r, 1, 0) for d in D])


def shepard(given):
    def h(e):
        L, m = load()
        C = Cells(e)
        D, p = C.D, C.p
        tiny = z3.Q(1, 10 ** 10)
        e.assume(D[0] > tiny)
        ref = sreal_(e, 'reference')
        if given:
            e.assume(ref.t > 0)
        e.cover('pre')
        r, ex = call(m.adw_compute_weights_from_cutoff_distances, C.d, C.s, ref if given else None)
        e.prove('distance weights are computed', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        w, s = r
        e.prove('one weight per neighbour', zand(zb(s.shape[0] == C.n), zb(w.shape[0] == C.n), T if s.shape[1] == w.shape[1] == K else F))
        if not given:
            means = e.state.get('means', [])
            e.prove('the reference radius is the mean distance of the seventh neighbours', zand(zb(means[0][0].shape[0] == C.n), means[0][0].at(p).t == D[6]) if len(means) == 1 and len(means[0][0].shape) == 1 else F)
            if not means:
                return
            ref = means[0][1]
        # the radius: the fifth distance when the fourth neighbour is farther than the reference radius, the reference radius when the tenth is, the eleventh distance otherwise
        n = within(D, ref.t)
        rad = e.fresh(R, 'radius')
        k = e.choose(3)
        e.assume([zand(n < 4, rad == D[4]), zand(n >= 4, n < 10, rad == ref.t), zand(n >= 10, rad == D[10])][k])
        for j in range(K):
            v = s.at(p, j)
            e.prove('distance weights are numbers', num(v))
            e.prove('distance weights are not negative', v.t >= 0)
            q = SReal(rad)
            e.prove('a neighbour closer than a third of the radius weighs 1/d', zimp(D[j] <= rad / 3, v.t == ew('/', lift(1.0), SReal(D[j])).t))
            e.prove('a neighbour within the radius weighs 27/4r (d/r - 1)^2',
                    zimp(zand(D[j] > rad / 3, D[j] <= rad), v.t == ew('*', ew('/', lift(27), ew('*', lift(4), q)), ew('**', ew('-', ew('/', SReal(D[j]), q), lift(1)), lift(2))).t))
            e.prove('a neighbour beyond the radius weighs nothing', zimp(D[j] > rad, v.t == 0))
            e.prove('the weights are the squares', zand(num(w.at(p, j)), w.at(p, j).t == v.t * v.t))
        e.cover('post')
    return h


def hofstra(e):
    L, m = load()
    C = Cells(e)
    D, p = C.D, C.p
    cdd = sym_array('cdd', (C.n,))
    r0 = cdd.at(p).t
    e.assume(r0 > 0)
    e.cover('pre')
    s, ex = call(m.cdd_hofstra_compute_weights_from_cutoff_distances, C.d, cdd, C.s)
    e.prove('distance weights are computed', ex is None, extxt(ex) + (trace(ex) if ex else ''))
    if ex is not None:
        return
    e.prove('one weight per neighbour', zand(zb(s.shape[0] == C.n), T if s.shape[1] == K else F))
    few = within(D, r0) < 3
    for j in range(K):
        v = s.at(p, j)
        e.prove('distance weights are numbers, not negative', zand(num(v), v.t >= 0))
        e.prove('a cell with less than three neighbours within its CDD has no weights', zimp(few, v.t == 0))
        e.prove('a neighbour within the CDD weighs exp(-4 d / CDD)', zimp(zand(znot(few), D[j] <= r0), v.t == ew('exp', ew('/', ew('*', ew('neg', SReal(D[j])), lift(4.0)), SReal(r0))).t))
        e.prove('a neighbour beyond the CDD weighs nothing', zimp(D[j] > r0, v.t == 0))
    e.cover('post')


def mix(mins):
    """mins: 0 for the standard options (floats of the code), or the minimum number of stations asked for"""
    def h(e):
        L, m = load()
        C = Cells(e)
        D, p = C.D, C.p
        cdd = sym_array('cdd', (C.n,))
        r0 = cdd.at(p).t
        e.assume(r0 > 0)
        if not mins:
            # the constants are those of floating point numbers
            M, args, near, far = 4, {}, lift(1 / 3), lift((1 / (1 / 3 - 1) ** 2))
            far = ew('*', far, ew('exp', lift(-4 * (1 / 3))))
            ms = 4
        else:
            mc, ratio = sreal_(e, 'm'), sreal_(e, 'ratio')
            ms = mins
            e.assume(zand(mc.t > 0, ratio.t > 0, ratio.t < 1))
            args = dict(m_const=mc, min_num_of_station=mins, radius_ratio=ratio)
            M, near = mc, ratio
            far = ew('*', ew('/', lift(1), ew('**', ew('-', ratio, lift(1)), lift(2))), ew('exp', ew('*', ew('neg', mc), ratio)))
        e.assume(D[ms] > 0)
        e.cover('pre')
        s, ex = call(m.cdd_hofstra_shepard_compute_weights_from_cutoff_distances, C.d, cdd, K, C.s, **args)
        e.prove('distance weights are computed', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        e.prove('one weight per neighbour', zand(zb(s.shape[0] == C.n), T if s.shape[1] == K else F))
        n = within(D, r0)
        rad = e.fresh(R, 'radius')
        k = e.choose(3)
        e.assume([zand(n < ms, rad == D[ms]), zand(n >= ms, n < 10, rad == r0), zand(n >= ms, n >= 10, rad == D[10])][k])
        e.assume(rad > 0)
        q = SReal(rad)
        for j in range(K):
            v = s.at(p, j)
            e.prove('distance weights are numbers, not negative', zand(num(v), v.t >= 0))
            e.prove('a close neighbour weighs exp(-m d / r)', zimp(D[j] <= rad * core.toreal(near).t, v.t == ew('exp', ew('/', ew('*', ew('neg', SReal(D[j])), lift(M)), q)).t))
            e.prove('a neighbour towards the radius weighs exp(-m q) (d/r - 1)^2 / (q - 1)^2',
                    zimp(zand(D[j] > rad * core.toreal(near).t, D[j] <= rad), v.t == ew('*', far, ew('**', ew('-', ew('/', SReal(D[j]), q), lift(1)), lift(2))).t))
            e.prove('a neighbour beyond the radius weighs nothing', zimp(D[j] > rad, v.t == 0))
        # the caller goes on with the array handed in
        e.prove('the weights are stored in the array handed in', zand(*[C.s.at(p, j).t == s.at(p, j).t for j in range(K)]))
        e.cover('post')
    return h


def positive(e, t):
    """t is assumed positive; divisions by it need no proof"""
    t = core._simp(t)
    e.assume(t > 0)
    e.state.setdefault('positive', {})[t.get_id()] = t


class Angles:
    """a cell's neighbours seen from the target: differences of latitude and longitude, and the angular term of the scheme"""

    def __init__(self, e, k, lat, lon, slat, slon, onsource=False):
        self.k = k
        self.dx = [ew('-', lat, a) for a in slat]
        self.dy = [ew('-', lon, a) for a in slon]
        self.D = [ew('sqrt', ew('+', ew('**', x, lift(2)), ew('**', y, lift(2)))) for x, y in zip(self.dx, self.dy)]
        D = self.D
        zero = {0} if onsource else set()
        self.onsource = onsource
        for i in range(k):
            if i in zero:
                e.assume(zand(D[i].t == 0, self.dx[i].t == 0, self.dy[i].t == 0))
            else:
                positive(e, D[i].t)
        for i in range(k):
            for j in range(k):
                if i not in zero and j not in zero:
                    positive(e, ew('*', D[i], D[j]).t)     # product of positive numbers

    def cos(self, i, j):
        return ew('/', ew('+', ew('*', self.dx[i], self.dx[j]), ew('*', self.dy[i], self.dy[j])), ew('*', self.D[i], self.D[j]))

    def term(self, i, s):
        """(numerator, denominator) of the angular term of neighbour i"""
        n = d = lift(0)
        for j in range(self.k):
            if j != i:
                n = ew('+', n, ew('*', ew('-', lift(1), self.cos(i, j)), s[j]))
                d = ew('+', d, s[j])
        return n, d


def angular(onsource):
    """the term of every neighbour, computed for all pairs at once"""
    def h(e):
        L, m = load()
        n, ns = sint_(e, 'cells'), sint_(e, 'sources')
        e.assume(zand(n.t >= 1, ns.t >= K))
        slat, slon = sym_array('slat', (ns,)), sym_array('slon', (ns,))
        lat, lon = sym_array('lat', (n,)), sym_array('lon', (n,))
        ix = sym_array('neighbours', (n, K), 'i8')
        s = sym_array('s', (n, K))
        q, j = z3.Ints('q!ix j!ix')
        t = ix.at(q, j).t
        e.assume(z3.ForAll([q, j], zimp(zand(q >= 0, q < n.t, j >= 0, j < K), zand(t >= 0, t < ns.t)), patterns=[t]))
        p = e.fresh(Z, 'cell')
        e.assume(zand(p >= 0, p < n.t))
        S = [s.at(p, j) for j in range(K)]
        e.assume(zand(*[x.t >= 0 for x in S]))
        who = [ix.at(p, j).t for j in range(K)]
        A = Angles(e, K, lat.at(p), lon.at(p), [slat.at(w) for w in who], [slon.at(w) for w in who], onsource)
        e.cover('pre')
        r, ex = call(m.adw_and_cdd_compute_weights_directional_in_broadcasting, s, slat, slon, ix, lat, lon)
        e.prove('angular terms are computed', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        e.prove('one term per neighbour', zand(zb(r.shape[0] == n), T if r.shape[1] == K else F))
        for i in range(K):
            v = r.at(p, i)
            if onsource:
                e.prove('no angular term for a cell at the coordinates of its first neighbour', v.nan)
                continue
            a, d = A.term(i, S)
            e.prove('the angular term is the mean of 1 - cos over the other neighbours, weighted by their distance weights',
                    zand(zimp(d.t != 0, zand(num(v), v.t == ew('/', a, d).t)), zimp(d.t == 0, v.nan)))
        e.cover('post')
    return h


class Stub:
    """a distance weight function by its contract: numbers that are not negative; which ones (for the cell looked at) is the case"""

    def __init__(self, e, case, p):
        self.p, self.calls = p, []
        self.fn = e.fresh_fn('S', Z, Z, R)
        q, j = z3.Ints('q!S j!S')
        e.assume(z3.ForAll([q, j], self.fn(q, j) >= 0, patterns=[self.fn(q, j)]))
        self.val = [lift(0.0) if case == 'none' or isinstance(case, int) and j != case else SReal(e.fresh(R, f's{j}'), F, core.I0, True) for j in range(K)]
        for v in self.val:
            if not z3.is_rational_value(v.t):
                e.assume(v.t >= 0) if case == 'several' else positive(e, v.t)
        if case == 'several':
            # at least two weights: the others of any neighbour have some
            for i in range(K):
                positive(e, ewsum([v for j, v in enumerate(self.val) if j != i]).t)

    def give(self, n, s, power):
        def at(q, j):
            t = self.fn(q, j)
            for c in range(K):
                t = z3.If(zand(q == self.p, j == c), self.val[c].t, t)
            return SReal(core._simp(t), F, core.I0, True)
        r = Arr((n, K), at)
        s[...] = r
        return (elementwise('**', r, 2), r) if power else r


def convex(e):
    """weights that are distance weights times one plus the angular term, over their sum"""
    k, squared = e.choose(3), e.choose(2)
    n = (1, 2, K)[k]
    s, wd = [e.fresh(R, f's{j}') for j in range(n)], [e.fresh(R, f'wd{j}') for j in range(n)]
    e.assume(zand(*[v >= 0 for v in s + wd]))
    i = e.choose(n)
    e.assume(s[i] > 0)
    W = [e.fresh(R, f'W{j}') for j in range(n)]
    for a, b, c in zip(W, s, wd):
        e.prove('a weight is not negative', b * b * (1 + c) >= 0 if squared else b * (1 + c) >= 0)
    e.prove('the weight of a neighbour with a distance weight is positive', s[i] * s[i] * (1 + wd[i]) > 0 if squared else s[i] * (1 + wd[i]) > 0)
    e.assume(zand(*[v >= 0 for v in W], W[i] > 0))
    T_ = z3.Sum(*W) if n > 1 else W[0]
    e.prove('the sum is positive', T_ > 0)
    t = e.fresh(R, 'sum')
    e.assume(zand(t > 0, t == T_))
    q = [e.fresh(R, f'q{j}') for j in range(n)]
    e.assume(zand(*[a * t == b for a, b in zip(q, W)]))
    for a, b in zip(q, W):
        e.prove('the quotient is not negative', zimp(zand(a * t == b, b >= 0, t > 0), a >= 0))
    x = e.fresh(R, 'total')
    e.assume(x == z3.Sum(*q) if n > 1 else x == q[0])
    e.prove('quotients sum to one', zimp(x * t == t, x == 1))
    e.prove('the sum of the quotients times the sum', z3.simplify(sum(a * t for a in q) - sum(q) * t, som=True) == 0)


def cosine(e):
    """1 - cos is not negative: |u.v| is at most |u| |v|"""
    a, b, c, d = [e.fresh(R, x) for x in 'abcd']
    m, n = e.fresh(R, 'm'), e.fresh(R, 'n')
    e.prove("Lagrange's identity", z3.simplify((a * a + b * b) * (c * c + d * d) - (a * c + b * d) * (a * c + b * d) - (a * d - b * c) * (a * d - b * c), som=True) == 0)
    x, y = e.fresh(R, 'x'), e.fresh(R, 'y')
    e.prove('a square is not negative', x * x >= 0)
    e.prove('the root is monotone', zimp(zand(y > 0, x * x <= y * y), x <= y))
    e.prove('the quotient is at most one', zimp(zand(y > 0, x <= y), x / y <= 1))
    e.prove('a sum of products of numbers that are not negative', zimp(zand(x >= 0, y >= 0), x * y >= 0))


def ewsum(xs):
    r = lift(0)
    for x in xs:
        r = ew('+', r, x)
    return r


def table(scheme, broad, case, onsource=False, top10=False, flat=False):
    """the table of one target cell; case: none, one (which) or several neighbours have a distance weight"""
    def h(e):
        e.state['opaque_sqrt'] = True
        P = Problem(e, K)
        m = P.load()
        n = P.n.t
        R_, C_, p = P.cell()
        St = Stub(e, case, p)
        seen = {}

        def shep(distances, s, ref_radius):
            seen['d'], seen['args'] = asarr(distances).snap(), (ref_radius,)
            return St.give(distances.shape[0], s, True)

        def hof(distances, CDD_map, s):
            seen['d'], seen['cdd'], seen['args'] = asarr(distances).snap(), asarr(CDD_map).snap(), ()
            return St.give(distances.shape[0], s, False)

        def mixed(distances, CDD_map, nnear, s, m_const=4, min_num_of_station=4, radius_ratio=1 / 3):
            seen['d'], seen['cdd'], seen['args'] = asarr(distances).snap(), asarr(CDD_map).snap(), (nnear, m_const, min_num_of_station, radius_ratio)
            return St.give(distances.shape[0], s, False)
        m.adw_compute_weights_from_cutoff_distances = shep
        m.cdd_hofstra_compute_weights_from_cutoff_distances = hof
        m.cdd_hofstra_shepard_compute_weights_from_cutoff_distances = mixed
        cdd = sym_array('cdd', (P.rows, P.cols))
        opened = []

        def reader(kind):
            class Reader:
                def __init__(self, path, *a, **k):
                    opened.append((kind, path))
                values = cdd
            return Reader
        m.NetCDFReader, m.PCRasterReader = reader('nc'), reader('map')
        opts = None
        if scheme == 'Shepard':
            kw = dict(mode='adw')
        else:
            name = ['cdd.nc', 'cdd.map'][e.choose(2)] if case == 'none' else 'cdd.nc'
            kw = dict(mode='cdd', cdd_map=name, cdd_mode=scheme)
            if scheme == 'MixHofstraShepard' and (top10 or case == 'none'):
                opts = dict(weights_mode='OnlyTOP10' if top10 else 'All', radius_ratio=sreal_(e, 'ratio'), min_num_of_station=sint_(e, 'mins'), m_const=sreal_(e, 'm'))
                kw['cdd_options'] = VDict(dict(opts))
        S, ex = call(P.make, use_broadcasting=broad, **kw)
        e.prove('the source grid is accepted', ex is None, extxt(ex))
        if ex is not None:
            return
        tree = e.state['tree']
        # the neighbours of the cell: what the tree answers for its position
        x = e.fresh(POS, 'position')
        e.state['cell'] = p, x
        spot = P.target(R_, C_)
        near = [NEAR(x, j) for j in range(K)]
        d = [DIST(x, j) for j in range(K)]
        for j in range(K):
            e.assume(zand(d[j] >= 0, near[j] >= 0, near[j] < n))
        A = Angles(e, K, P.tlat.at(R_, C_), P.tlon.at(R_, C_), [P.slat.at(i) for i in near], [P.slon.at(i) for i in near], onsource)
        tiny = z3.Q(1, 10 ** 10)
        point = scheme == 'Shepard' and case in ('none', 'several') and e.choose(2) == 1
        if scheme == 'Shepard':
            e.assume(d[0] <= tiny if point else d[0] > tiny)
        e.cover('pre')
        r, ex = call(S.interpolate, P.tlon, P.tlat)
        e.prove('the table is built', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        res, w, idx = r
        q = tree.queries[-1][1]
        e.prove('the tree is asked for every target cell at its position on the sphere', zand(zb(q.shape[0] == P.rows * P.cols), *[q.at(p, c).t == v for c, v in enumerate(spot)]))
        # what the distance weights are computed from
        size = (P.rows * P.cols)
        e.prove('distance weights are computed once, from the distances of all cells', zand(zb(seen['d'].shape[0] == size), *[seen['d'].at(p, j).t == d[j] for j in range(K)]) if 'd' in seen else F)
        if scheme == 'Shepard':
            e.prove('the reference radius is that of the target', T if seen['args'] == (None,) else F)
        else:
            e.prove('the CDD map of the run is read', T if opened == [('nc' if name.endswith('.nc') else 'map', name)] else F)
            e.prove('the CDD is that of the cell, in metres', zand(zb(seen['cdd'].shape[0] == size), seen['cdd'].at(p).t == cdd.at(R_, C_).t * 1000))
            if scheme == 'MixHofstraShepard':
                want = (opts['m_const'], opts['min_num_of_station'], opts['radius_ratio']) if opts else (4, 4, 1 / 3)
                e.prove('the options are handed on by their names', zand(*[zb(a == b) for a, b in zip(seen['args'], (K,) + want)]))
        s = list(St.val)
        if top10:
            g = e.state['argpart'][-1](p, z3.IntVal(0)).t
            e.prove('one neighbour is left out', zand(g >= 0, g < K))
            for i in range(K):
                e.prove('the neighbour left out has the least weight', zimp(g == i, zand(*[s[i].t <= s[j].t for j in range(K)])))
            s = [ite(g == i, lift(0.0), v) for i, v in enumerate(s)]
        # the angular terms
        wd = []
        for i in range(K):
            if onsource or case == 'none' or case == i:
                wd.append(lift(1.0))
            else:
                a, b = A.term(i, s)
                wd.append(ew('/', a, b))
        if scheme != 'Shepard':
            tot = ewsum(wd)
            if flat:
                e.assume(tot.t == 0)       # every neighbour is in the same direction
                wd = [lift(0.0)] * K
            else:
                positive(e, tot.t)         # angular terms are not negative (lemma)
                wd = [ew('/', v, tot) for v in wd]
        base = [ew('**', v, lift(2)) for v in s] if scheme == 'Shepard' else s
        W = [ew('*', b, ew('+', lift(1), v)) for b, v in zip(base, wd)]
        tot = ewsum(W)
        if case != 'none':
            positive(e, tot.t)             # lemma
        for j in range(K):
            e.prove('neighbours are named in order of their distance', idx.at(p, j).t == near[j])
            v = w.at(p, j)
            if point:
                e.prove('a cell on a source point takes that point alone', zand(num(v), v.t == (1 if j == 0 else 0)))
            elif case == 'none':
                e.prove('a cell without distance weights is missing', v.nan)
            else:
                e.prove('weights are the distance weights times one plus the angular term, over their sum', zand(num(v), v.t == ew('/', W[j], tot).t))
        v = res.at(p)
        zs = [P.z.at(i) for i in near]
        if point:
            e.prove('the value is that of the source point', v.t == zs[0].t)
        elif case == 'none':
            e.prove('the value of a cell without distance weights is missing', v.nan)
        else:
            e.prove('the value is the sum of weight times value', v.t == ewsum([ew('*', w.at(p, j), zs[j]) for j in range(K)]).t)
        e.cover('post')
    return h


def vcs(tier):
    return [dict(name='Shepard distance weights[radius given]', harness=shepard(True), covers=['pre', 'post']),
            dict(name='Shepard distance weights[radius of the target]', harness=shepard(False), covers=['pre', 'post']),
            dict(name='Hofstra distance weights', harness=hofstra, covers=['pre', 'post']),
            *[dict(name=f'Hofstra and Shepard distance weights[{mins or "standard"}]', harness=mix(mins), covers=['pre', 'post']) for mins in ((0, 4, 7) if tier == 'quick' else range(10))],
            *[dict(name=f'angular term of all pairs[{"on a source" if o else "off the sources"}]', harness=angular(o), covers=['pre', 'post']) for o in (False, True)],
            dict(name='lemma: weights are convex', harness=convex, covers=[]), dict(name='lemma: cosines are at most one', harness=cosine, covers=[]),
            *[dict(name=f'table[{sc},{"broadcasting" if b else "loop"},{c if isinstance(c, str) else f"one:{c}"}{",on a source" if o else ""}{",top ten" if t else ""}{",one direction" if f else ""}]',
                   harness=table(sc, b, c, o, t, f), covers=['pre', 'post'], timeout_ms=30000)
              for sc in ('Shepard', 'Hofstra', 'MixHofstraShepard') for b in (False, True)
              for c, o, t, f in [('none', 0, 0, 0), (0, 0, 0, 0), ('several', 0, 0, 0)] + ([('several', 1, 0, 0), ('several', 0, 0, 1)] if sc != 'Shepard' else []) + ([('several', 0, 1, 0)] if sc[0] == 'M' else [])
              if tier != 'quick' or not (o or f or t) or (o and b == (sc[0] == 'M')) or (f and b == (sc[0] == 'H')) or (t and not b)]]
