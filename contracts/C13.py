"""C13 contracts: a table written by one process and read by a later one gives what the fresh one gave."""
from contracts.tables import *
from contracts.C12 import ASSUMPTIONS as A12

ASSUMPTIONS = A12 + ['numpy.save/numpy.load through gzip round-trip arrays and record arrays exactly (cross-checked by the run-time contract)']


def harness(mode, registered):
    def h(e):
        W = World(e, mode, registered)
        f = fs()
        e.assume(f.isdir0(world.term('/user')))
        e.assume(zb(f.access('/user', 2)))
        found, none = W.found()
        e.assume(none)
        a = W.process(True)
        k = e.choose(3)
        v = field(e, 'v', W.n, k)
        v2 = field(e, 'v2', W.n, k)
        lat, lon = sym_array('slat', (W.n,)), sym_array('slon', (W.n,))
        e.cover('pre')
        r1, ex = call(a.interpolate, lat, lon, v.copy(), GRID, None)
        e.prove('the table is built', ex is None, extxt(ex))
        if ex is not None:
            return
        e.prove('the table is built once', len(W.builders.calls) == 1)
        r2, ex2 = call(a.interpolate, lat, lon, v2.copy(), GRID, None)
        e.prove('the new table can be used again', ex2 is None, extxt(ex2))
        b = W.process(False)
        nlog = len(f.log)
        s1, ex3 = call(b.interpolate, None, None, v.copy(), GRID, None)
        e.prove('a later process finds the stored table under its id', ex3 is None, extxt(ex3))
        s2, ex4 = call(b.interpolate, None, None, v2.copy(), GRID, None)
        e.prove('a later process can use the stored table again', ex4 is None, extxt(ex4))
        if ex2 is not None or ex3 is not None or ex4 is not None:
            return
        e.prove('using the stored table builds and writes nothing', len(W.builders.calls) == 0 and len(f.log) == nlog)
        R_, C_ = r1.fresh_index('cell')
        for t, x, y in (('first field', r1, s1), ('another field', r2, s2)):
            e.prove(f'{t}: the stored table gives the shape of the fresh one', zand(*[zb(p == q) for p, q in zip(x.shape, y.shape)]) if len(x.shape) == len(y.shape) else F)
            e.prove(f'{t}: the stored table gives exactly what the fresh one gave', zand(x.m(R_, C_) == y.m(R_, C_), zor(x.m(R_, C_), same(x.at(R_, C_), y.at(R_, C_)))))
        js = [w for w in f.writes if w[0].eq(world.term(CONF))]
        e.prove('the registry on disk names the table', len(js) >= 1 and W.id in js[-1][1][0].obj)
    return h


def vcs(tier):
    out = []
    for mode in ('nearest', 'invdist', 'adw', 'cdd', 'bilinear', 'triangulation', 'bilinear_delaunay', 'grib_nearest', 'grib_invdist'):
        for reg in (None, 'user') if mode in ('nearest', 'invdist', 'grib_nearest', 'grib_invdist') else (None,):
            out.append(dict(name=f'{mode}[{"registered, file missing" if reg else "new"}]', harness=harness(mode, reg)))
    return out
