"""C07 contracts: Interpolator.interpolate with a stored table (construction, table lookup, reading, applying, reshaping)."""
from contracts.interp import *

ASSUMPTIONS = [
    'stored tables are well formed: indexes in [-1, n], an out-of-range entry is the marker n (or -1) with weight 0 or not-a-number, other weights are finite; '
    'GRIB-API tables name each target cell at most once, inside the target grid',
    'numpy (einsum, fancy indexing, reshape, masked arrays), gzip, gdal: assumed contracts (pyvc/models), cross-checked by the run-time contracts',
    'floats are mathematical reals plus NaN',
]


def scipy_mode(mode, vkind):
    def h(e):
        L, rows, cols, mv = setup_world(e)
        k = NNEAR[mode]
        gz = e.choose(2)
        n = sint_(e, 'n')
        e.assume(n.t >= 1)
        v = field(e, 'v', n, vkind)
        nt = rows * cols
        shape = (nt,) if k == 1 else (nt, k)
        ix = sym_array('idx', shape, 'i8')
        w = sym_array('w', shape, nan=True)
        path = '/user/t.npy' + ('.gz' if gz else '')
        put(path, RecArr({'indexes': ix, 'coeffs': w}), 'npy.gz' if gz else 'npy')
        m = L.load('pyg2p.main.interpolation')
        it = m.Interpolator(context(mode, Tables({table_id(mode): VDict({'filename': 't.npy' + ('.gz' if gz else '')})})), sreal_(e, 'mvgrib'))
        # well-formed table
        p = z3.Int('p!t')
        js = [z3.IntVal(j) for j in range(k)]
        at = (lambda a, p, j: a.at(p)) if k == 1 else (lambda a, p, j: a.at(p, j))
        out = lambda p, j: zor(at(ix, p, j).t == n.t, at(ix, p, j).t == -1)
        q = e.fresh(Z, 'cellp')
        N = dimt(nt)
        for j in js:
            e.assume(z3.ForAll([p], zimp(zand(p >= 0, p < N), zand(at(ix, p, j).t >= -1, at(ix, p, j).t <= n.t)), patterns=[at(ix, p, j).t]))
        e.cover('pre')
        vin = v.snap()
        r, ex = call(it.interpolate, None, None, v, GRID, None)
        e.prove('applying a stored table does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.prove('the result has the target shape', zand(*[zb(a == b) for a, b in zip(r.shape, (rows, cols))]) if len(r.shape) == 2 else F)
        R_, C_ = r.fresh_index('cell')
        P = lin(R_, C_, dimt(cols))
        if k > 1:
            for j in js:
                wj = at(w, P, j)
                e.assume(zimp(out(P, j), zor(wj.nan, wj.t == 0)))
        e.assume(zand(P >= 0, P < N))
        inside = lambda j: znot(out(P, j))
        anynan = zor(*[at(w, P, j).nan for j in js]) if k > 1 else out(P, js[0])
        masked = zor(*[zand(inside(j), vin.m(at(ix, P, j).t)) for j in js])
        missing = zor(anynan, masked)
        x = r.at(R_, C_)
        e.prove('out-of-range entries and masked source values give a missing cell', zimp(missing, miss(r, (R_, C_), mv)))
        valid = znot(missing)
        e.prove('every other cell is valid', zimp(valid, zand(znot(r.m(R_, C_)), znot(x.nan), x.inf == 0)))
        if k == 1:
            e.prove('single neighbour: the named value', zimp(valid, x.t == vin.at(at(ix, P, js[0]).t).t))
        else:
            tot = z3.RealVal(0)
            for j in js:
                tot = tot + z3.If(out(P, j), z3.RealVal(0), at(w, P, j).t * vin.at(at(ix, P, j).t).t)
            e.prove('weighted sum of the named values', zimp(valid, x.t == tot))
        # the same table is used again from memory
        r2, ex = call(it.interpolate, None, None, vin.copy(), GRID, None)
        e.prove('applying the table again does not fail', ex is None, extxt(ex))
        if ex is None:
            e.prove('the second use gives the same', zand(r2.m(R_, C_) == r.m(R_, C_), same(r2.at(R_, C_), x)))
    return h


def grib_mode(mode, vkind):
    def h(e):
        L, rows, cols, mv = setup_world(e)
        k = 1 if mode == 'grib_nearest' else 4
        gz = e.choose(2)
        n, nt = sint_(e, 'n'), sint_(e, 'nt')
        e.assume(zand(n.t >= 1, nt.t >= 1))
        v = field(e, 'v', n, vkind)
        xs, ys = sym_array('xs', (nt,), 'i8'), sym_array('ys', (nt,), 'i8')
        ix = [sym_array(f'idx{j}', (nt,), 'i8') for j in range(k)]
        w = [sym_array(f'w{j}', (nt,)) for j in range(k)]
        path = '/user/t.npy' + ('.gz' if gz else '')
        if k == 1:
            put(path, asarr([xs, ys, ix[0]]), 'npy.gz' if gz else 'npy')
        else:
            z = full((nt,), 0.0)
            put(path, RecArr({'indexes': asarr([xs, ys] + ix), 'coeffs': asarr(w + [z, z])}), 'npy.gz' if gz else 'npy')
        m = L.load('pyg2p.main.interpolation')
        it = m.Interpolator(context(mode, Tables({table_id(mode): VDict({'filename': 't.npy' + ('.gz' if gz else '')})})), sreal_(e, 'mvgrib'))
        p, q = z3.Ints('p!t q!t')
        inr = zand(p >= 0, p < nt.t)
        e.assume(z3.ForAll([p], zimp(inr, zand(xs.at(p).t >= 0, xs.at(p).t < rows.t, ys.at(p).t >= 0, ys.at(p).t < cols.t)), patterns=[xs.at(p).t]))
        for a in ix:
            e.assume(z3.ForAll([p], zimp(inr, zand(a.at(p).t >= 0, a.at(p).t < n.t)), patterns=[a.at(p).t]))
        # one entry per cell
        e.assume(z3.ForAll([p, q], zimp(zand(p >= 0, p < q, q < nt.t), zor(xs.at(p).t != xs.at(q).t, ys.at(p).t != ys.at(q).t)),
                           patterns=[z3.MultiPattern(xs.at(p).t, xs.at(q).t)]))
        e.cover('pre')
        vin = v.snap()
        r, ex = call(it.interpolate, None, None, v, GRID, None)
        e.prove('applying a stored table does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.prove('the result has the target shape', zand(*[zb(a == b) for a, b in zip(r.shape, (rows, cols))]) if len(r.shape) == 2 else F)
        # a cell with an entry
        P = e.fresh(Z, 'entry')
        e.assume(zand(P >= 0, P < nt.t))
        c = (xs.at(P).t, ys.at(P).t)
        masked = zor(*[vin.m(a.at(P).t) for a in ix])
        x = r.at(*c)
        e.prove('an entry naming a masked value gives a missing cell', zimp(masked, miss(r, c, mv)))
        e.prove('the cell of an unmasked entry is valid', zimp(znot(masked), zand(znot(r.m(*c)), znot(x.nan))))
        val = vin.at(ix[0].at(P).t).t if k == 1 else sum([w[j].at(P).t * vin.at(ix[j].at(P).t).t for j in range(k)], z3.RealVal(0))
        e.prove('the cell gets the value of its own entry', zimp(znot(masked), x.t == val))
        # a cell without entry
        R_, C_ = r.fresh_index('cell')
        e.assume(z3.ForAll([p], zimp(inr, zor(xs.at(p).t != R_, ys.at(p).t != C_)), patterns=[xs.at(p).t]))
        e.prove('a cell without entry is missing', miss(r, (R_, C_), mv))
    return h


def vcs(tier):
    out = []
    for mode in ('nearest', 'triangulation', 'invdist', 'bilinear', 'bilinear_delaunay', 'adw', 'cdd'):
        for kn, kk in (('plain', 0), ('masked', 1), ('nomask', 2)):
            out.append(dict(name=f'{mode}[{kn}]', harness=scipy_mode(mode, kk)))
    for mode in ('grib_nearest', 'grib_invdist'):
        for kn, kk in (('plain', 0), ('masked', 1), ('nomask', 2)):
            out.append(dict(name=f'{mode}[{kn}]', harness=grib_mode(mode, kk)))
    return out
