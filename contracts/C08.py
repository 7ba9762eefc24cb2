"""C08 contracts: tables of the nearest and inverse distance modes."""
from contracts.scipylib import *
from contracts.tables import *

ASSUMPTIONS = [
    'scipy.spatial.cKDTree.query returns the k closest points in order of their euclidean distance, a function of the query point (assumed contract, cross-checked by the run-time contract)',
    'the source grid is not a grid of coincident points: its spacing is above 1e-10 (the distance under which a cell is on a source point)',
    'the source grid has at least as many points as neighbours are used (4 for invdist, 2 for the grid spacing) and finite coordinates; Nj is given',
    'sine and cosine are uninterpreted functions (only sin(-x) = -sin x, cos(-x) = cos x are used); reals instead of floats (float32 target coordinates are as good as exact)',
    'stdout output is not looked at',
]


def tables(mode, masked, rotated, f4, splits=False):
    k = {'nearest': 1, 'invdist': 4}[mode]

    def h(e):
        P = Problem(e, k, masked, rotated, f4)
        P.load()
        e.state['loop_spec'] = nn_spec(P)
        e.cover('pre')
        S, ex = call(P.make, mode)
        e.prove('the source grid is accepted', ex is None, extxt(ex))
        if ex is not None:
            return
        bound = getattr(S, 'min_upper_bound', None)
        P.B = lift(bound).t if bound is not None else None
        if P.B is None:
            limit(e, P, S)
        r, ex = call(S.interpolate, P.tlon, P.tlat)
        e.prove('building the table does not fail', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        if bound is not None:
            limit(e, P, S)
        check_table(e, P, r[1], r[2], mode, k)
        e.cover('post')
    return h


def limit(e, P, S):
    """the range limit: the source spacing (largest distance between a source point and its closest neighbour) enlarged by 4/Nj"""
    tree, n = e.state['tree'], P.n.t
    s = P.some_source()
    own = [q for q in tree.queries if q[0] >= 2 and e.known(zb(q[1].shape[0] == P.n))][:1]
    e.prove('the source points are asked for their closest neighbours', zand(*[own[0][1].at(s, c).t == tree.pts.at(s, c).t for c in range(3)]) if own else F)
    if not own:
        raise Unsupported('source spacing')
    ps = own[0][2]
    spacing = core.uf('spacing', R)()
    at = e.fresh(Z, 'widest')
    e.assume(zand(at >= 0, at < n))
    q = z3.Int('q!sp')
    e.assume(z3.ForAll([q], zimp(zand(q >= 0, q < n), spacing >= DIST(ps(q), 1)), patterns=[DIST(ps(q), 1)]))
    e.assume(spacing == DIST(ps(at), 1))
    tree.mention(at)
    for w in e.state.get('redw', {}).values():
        tree.mention(w[0])
    B = e.fresh(R, 'limit')
    e.assume(B == spacing * (1 + z3.RealVal(4) / z3.ToReal(P.nj.t)))
    e.assume(spacing > z3.Q(1, 10 ** 10))
    if P.B is not None:
        for key, w in e.state.get('redw', {}).items():
            m = e.state['redv'][key]
            if e.known(m == spacing):
                e.assume(m == spacing)
        e.prove('the range limit is the source spacing enlarged by 4/Nj', P.B == B)
        e.assume(P.B == B)
    P.B = B


def nn_spec(P):
    """loop over the cells in order: cells before pos have their entry"""
    def spec(d):
        tree = eng().state['tree']
        q = tree.queries[-1][2]
        out = {}
        near = lambda i: DIST(q(i), 0) <= P.B

        def upto(f, v0):
            return lambda d: Arr(v0.shape, lambda i: ite(i < d.pos, f(i), v0.at(i)), v0._dt, None if not v0.ismasked else NOMASK if v0.nomask else lambda i: zand(znot(i < d.pos), v0.m(i)))
        for path, o in list(d.mut.items()) + [(n, v) for n, v in d.entry.items() if isinstance(v, Arr)]:
            if not isinstance(o, Arr) or len(o.shape) != 1:
                continue
            v0 = o.snap()
            if v0._dt == 'i8':
                out[path] = ArrInv(path, [('indexes', upto(lambda i: SInt(z3.If(near(i), NEAR(q(i), 0), P.n.t), True), v0))])
        for n, v in d.entry.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out[n] = CandInv(n, [('counts', (lambda v: lambda d: SInt(core._simp(iterm(v) + d.pos - d.lo)))(v))])
        return out
    return spec


def check_table(e, P, weights, idx, mode, k):
    tree = e.state['tree']
    R_, C_, p = P.cell()
    s, s2 = P.some_source(), P.some_source()
    n = P.n.t
    tp = P.target(R_, C_)
    src = lambda s: P.source(s)
    # the geometry handed to the tree
    e.prove('the tree holds the source points at their positions on the sphere', zand(*[tree.pts.at(s, c).t == v for c, v in enumerate(src(s))]))
    last = tree.queries[-1]
    e.prove('the tree is asked for every target cell at its position on the sphere', zand(zb(last[1].shape[0] == P.rows * P.cols), *[last[1].at(p, c).t == v for c, v in enumerate(tp)]))
    tree.mention(p)
    tree.mention(s)
    tree.mention(s2)
    x = last[2](p)
    d = lambda j: DIST(x, j)
    inr = d(0) <= P.B
    e.prove('the table has one row per target cell', zand(zb(idx.shape[0] == P.rows * P.cols), zb(weights.shape[0] == P.rows * P.cols)))
    e.prove('the table has one column per neighbour', T if (len(idx.shape) == 1 if k == 1 else len(idx.shape) == 2 and idx.shape[1] == k and len(weights.shape) == 2 and weights.shape[1] == k) else F)
    ix = [idx.at(p) if k == 1 else idx.at(p, j) for j in range(k)]
    w = [weights.at(p) if k == 1 else weights.at(p, j) for j in range(k)]
    ix = [i.t for i in ix]
    ch = lambda s: CHORD(x, s)
    for j in range(k):
        e.prove('a cell out of range has the out-of-range marker', zimp(znot(inr), ix[j] == n))
        if k > 1:
            e.prove('a cell out of range has no weight', zimp(znot(inr), w[j].nan))
        e.prove('a cell in range names source points', zimp(inr, zand(ix[j] >= 0, ix[j] < n)))
    e.prove('the first named point is the closest', zimp(inr, zand(ch(ix[0]) == d(0), ch(s) >= ch(ix[0]))))
    if k == 1:
        return
    e.prove('the named points are different', zimp(inr, zand(*[ix[i] != ix[j] for j in range(k) for i in range(j)])))
    e.prove('the named points are the closest', zimp(zand(inr, *[s != i for i in ix]), zand(*[ch(s) >= ch(i) for i in ix])))
    dd = [ch(i) for i in ix]
    tiny = z3.Q(1, 10 ** 10)
    e.prove('a cell on a source point takes that point alone', zimp(zand(inr, dd[0] <= tiny), zand(*[zand(znot(w[j].nan), w[j].inf == 0, w[j].t == (1 if j == 0 else 0)) for j in range(k)])))
    off = zand(inr, dd[0] > tiny)
    e.prove('weights are numbers', zimp(off, zand(*[zand(znot(v.nan), v.inf == 0) for v in w])))
    for j in range(k):
        e.prove('weights are proportional to the inverse squared distances', zimp(off, w[j].t * dd[j] * dd[j] == w[0].t * dd[0] * dd[0]))
        e.prove('weights are not negative', zimp(off, w[j].t >= 0))
    e.prove('weights sum to one', zimp(off, sum([v.t for v in w[1:]], w[0].t) == 1))


def refused(e):
    """coordinates and values of different number"""
    P = Problem(e, 1)
    P.load()
    m = sint_(e, 'values')
    e.assume(zand(m.t >= 0, m.t != P.n.t))
    P.z = sym_array('z', (m,))
    S, ex = call(P.make, ['nearest', 'invdist', 'adw', 'bilinear'][e.choose(4)])
    e.prove('source coordinates and values of different number are refused', isapp(ex, P.L))


def isapp(ex, L):
    return ex is not None and type(ex) is L.load('pyg2p.exceptions').ApplicationException


def handed(mode):
    """Interpolator.interpolate_scipy: what it hands to the builder and what becomes of the table it gets"""
    def h(e):
        W = World(e, mode, None)
        f = fs()
        e.assume(f.isdir0(world.term('/user')))
        e.assume(zb(f.access('/user', 2)))
        _, none = W.found()
        e.assume(none)
        one = e.choose(3) if mode == 'nearest' else 1
        rot, par, bc = one == 0, one == 1, one == 2
        opts = VDict({'m_const': 8, 'min_num_of_station': 4, 'radius_ratio': 1 / 3, 'weights_mode': 'All'})
        splits = [None, sint_(e, 'splits')][int(par)]
        a = W.process(True, **{'interpolation.rotated_target': rot, 'interpolation.parallel': par, 'interpolation.use_broadcasting': bc, 'interpolation.cdd_map': '/m/cdd.map',
                               'interpolation.cdd_mode': 'Hofstra', 'interpolation.cdd_options': opts, 'interpolation.num_of_splits': splits})
        v = field(e, 'v', W.n)
        v0 = v.snap()
        lat, lon = sym_array('slat', (W.n,)), sym_array('slon', (W.n,))
        details = VDict({'gridType': 'regular_ll', 'radius': 1.0, 'Nj': 3})
        e.cover('pre')
        r, ex = call(a.interpolate, lat, lon, v, GRID, details)
        e.prove('the table is built', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        b = W.builders
        e.prove('the builder is asked once', len(b.made) == 1 and len(b.asked) == 1)
        if len(b.made) != 1 or len(b.asked) != 1:
            return
        glon, glat, det, z, k, mvt, mvs, rotated, parallel, m, cmap, cmode, copt, broad, nsp = b.made[0]
        s = e.fresh(Z, 'src')
        e.assume(zand(s >= 0, s < W.n.t))
        R_, C_ = e.fresh(Z, 'row'), e.fresh(Z, 'col')
        e.assume(zand(R_ >= 0, R_ < W.rows.t, C_ >= 0, C_ < W.cols.t))
        src = lambda x, y: zand(zb(asarr(x).shape[0] == W.n), asarr(x).at(s).t == y.at(s).t) if len(asarr(x).shape) == 1 else F
        e.prove('the builder gets the longitudes of the source points', src(glon, lon))
        e.prove('the builder gets the latitudes of the source points', src(glat, lat))
        e.prove('the builder gets the values of the source points', zand(zb(z.shape[0] == W.n), z.m(s) == v0.m(s), zor(v0.m(s), same(z.at(s), v0.at(s)))) if len(z.shape) == 1 else F)
        e.prove('the builder gets the details of the source grid', det is details)
        e.prove('the builder gets the number of neighbours of the mode', k == NNEAR[mode])
        e.prove('the builder gets the missing value of the target', zb(lift(mvt).t == W.mv.t))
        e.prove('the builder gets the mode', m == mode)
        e.prove('the builder is told whether the target is rotated', bool(rotated) == rot)
        e.prove('the builder gets the options of the run', zand(zb(bool(parallel) == par), zb(bool(broad) == bc), zb(cmap == '/m/cdd.map'), zb(cmode == 'Hofstra'), zb(copt is opts), T if nsp is splits else zb(nsp == splits) if None not in (nsp, splits) else F))
        tlon, tlat = b.asked[0]
        ok2 = lambda x: len(x.shape) == 2
        e.prove('longitudes of the target are asked for as longitudes', zand(zb(tlon.shape[0] == W.rows), zb(tlon.shape[1] == W.cols), tlon.at(R_, C_).t == rast(e, LON, R_, C_)) if ok2(tlon) else F)
        e.prove('latitudes of the target are asked for as latitudes', zand(zb(tlat.shape[0] == W.rows), zb(tlat.shape[1] == W.cols), tlat.at(R_, C_).t == rast(e, LAT, R_, C_)) if ok2(tlat) else F)
        none_ = zor(rast(e, LON, R_, C_) == W.mv.t, rast(e, LAT, R_, C_) == W.mv.t)
        e.prove('a cell without coordinates is missing', zimp(none_, miss(r, (R_, C_), W.mv)))
        p = lin(R_, C_, W.cols.t)
        t = list(a._LOADED_INTERTABLES.values())
        e.prove('one table is kept', len(t) == 1)
        if len(t) != 1:
            return
        ix, w = asarr(t[0]['indexes']), asarr(t[0]['coeffs'])
        ix0, w0 = b.tables[0]
        kk = NNEAR[mode]
        j = e.fresh(Z, 'neighbour')
        e.assume(zand(j >= 0, j < kk))
        at = lambda x: x.at(p) if kk == 1 else x.at(p, j)
        e.prove('a cell without coordinates has the out-of-range marker in the table', zimp(none_, at(ix).t == W.n.t))
        e.prove('other cells keep the neighbours of the builder', zimp(znot(none_), at(ix).t == at(ix0).t))
        if kk > 1:
            e.prove('other cells keep the weights of the builder', zimp(znot(none_), same(at(w), at(w0))))
        e.cover('post')
    return h


def rast(e, path, R_, C_):
    return e.state['rasters'][path].values.at(R_, C_).t


def vcs(tier):
    out = [dict(name='refused', harness=refused, covers=[])] + [dict(name=f'handed to the builder[{mode}]', harness=handed(mode), covers=['pre', 'post']) for mode in NNEAR]
    for mode in ('nearest', 'invdist'):
        for masked, rotated, f4 in ((False, False, False), (True, False, True), (False, True, False)):
            out.append(dict(name=f'{mode}[{"masked" if masked else "plain"},{"rotated" if rotated else "regular"},{"f4" if f4 else "f8"}]', harness=tables(mode, masked, rotated, f4), covers=['pre', 'post'],
                            budget_s=150))
    return out
