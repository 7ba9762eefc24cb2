"""C17 contracts: PCRasterWriter and the fields OutputWriter hands to it."""
from contracts.interp import *
from contracts.writing import *
from pyvc.models.np_model import asarr as _a

CLONE = '/m/clone.map'
ASSUMPTIONS = [
    'clone values are the missing value of the clone or differ from it by more than a relative 1e-5 (numpy.ma.masked_values)',
    'gdal: MEM and PCRaster CreateCopy keep size, georeference, values and missing value of the source dataset; WriteArray replaces all values',
    'PCRaster stores single precision: values are modelled as mathematical reals plus NaN',
]
KINDS = [False, True, 'nomask']


def clone_world(e, L, rows, cols):
    mv = sreal_(e, 'clone_mv')
    e.assume(znot(zb(mv.nan)))
    c = sym_array('clone', (rows, cols))
    fn = c._fn

    def at(*i):
        # the assumption on clone values, for the cells that occur
        x = fn(*i)
        near = zb(ew('<=', ew('abs', ew('-', x, mv)), ew('+', ew('*', ew('abs', mv), lift(1e-5)), lift(1e-8))))
        e.axiom(('clone', zimp(near, F).get_id()), zimp(near, zb(ew('==', x, mv))))
        return x
    c._fn = at
    geo = tuple(sreal_(e, f'geo{k}') for k in range(6))
    e.state.setdefault('rasters', {})[CLONE] = Raster(c, mv, geo=geo)
    return c, mv, geo


def written(e, name, path, c, mv, geo, v, missing):
    """the file written last is path and holds v where neither the clone nor the field is missing"""
    f = fs().writes
    ok = bool(f) and isinstance(f[-1][1], Raster) and f[-1][2] == 'pcraster'
    e.prove(f'{name}: a PCRaster map is written', ok)
    if not ok:
        return
    t, r, _ = f[-1]
    e.prove(f'{name}: under its name', t == world.term(path))
    e.prove(f'{name}: size of the clone', len(r.values.shape) == 2 and zand(*[dimt(a) == dimt(b) for a, b in zip(r.values.shape, c.shape)]))
    e.prove(f'{name}: georeference of the clone', zand(*[same(a, b) for a, b in zip(r.geo, geo)]))
    e.prove(f'{name}: missing value of the clone is the declared one', same(lift(r.mv), mv))
    i = c.fresh_index('cell')
    miss_ = zor(zb(ew('==', c.at(*i), mv)), missing(i))
    e.prove(f'{name}: missing in the clone or in the field: missing', zimp(miss_, same(r.values.at(*i), mv)))
    e.prove(f'{name}: every other cell holds the value of the field', zimp(znot(miss_), same(r.values.at(*i), v.at(*i))))


def pcr(e):
    e.state['open'] = world.open_
    L = loader()
    rows, cols = sint_(e, 'rows'), sint_(e, 'cols')
    e.assume(zand(rows.t >= 1, cols.t >= 1))
    c, mv, geo = clone_world(e, L, rows, cols)
    L.load('pyg2p')
    L.mods['pyg2p.main.interpolation'] = ModelModule('interpolation', dict(Interpolator=object))
    L.mods['pyg2p.main.manipulation.correction'] = ModelModule('correction', dict(Corrector=object))
    m = L.load('pyg2p.main.writers.pcr')
    w, ex = call(m.PCRasterWriter, CLONE)
    e.prove('opening the writer does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    e.cover('pre')
    for k in range(2):
        v = sym_array(f'v{k}', (rows, cols), masked=KINDS[e.choose(3)], nan=True)
        v0 = v.snap()
        _, ex = call(w.write, f'/out/m{k}.map', v)
        e.prove(f'map {k}: writing does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        written(e, f'map {k}', f'/out/m{k}.map', c, mv, geo, v0, lambda i: zor(v0.m(*i), zb(v0.at(*i).nan)))
    _, ex = call(w.close)
    e.prove('closing does not fail', ex is None, extxt(ex))
    e.cover('post')


def handed(change, correction):
    """what OutputWriter hands to the writer: the interpolated (corrected) values, missing cells masked or not-a-number"""
    def h(e):
        W = writing_world(e)
        W.kind = e.choose(3)
        steps(e, W, change)

        class Pcr:
            def write(self, f, v):
                it = W.calls[-1]
                g = it['given']
                r = _a(v)
                i = g.fresh_index('cell')
                if correction:
                    e.prove('the corrector of the grid of the step corrects the interpolated values', it.get('corrected') is it['first'] and it.get('cgrid') == it['grid'])
                mis = zor(g.m(*i), zb(g.at(*i).nan), zb(ew('==', g.at(*i), W.mv)))
                e.prove('the map has the size of the target', zand(*[dimt(a) == dimt(b) for a, b in zip(r.shape, g.shape)]))
                e.prove('a missing cell is handed over as missing', zimp(mis, zor(r.m(*i), zb(r.at(*i).nan))))
                e.prove('a valid cell is handed over unchanged', zimp(znot(mis), zand(znot(r.m(*i)), same(r.at(*i), g.at(*i)))))
                e.cover('written')

            def close(self):
                pass
        w = W.writer(correction=correction, namePrefix='pf', fmap=1, ext=1)
        w.writer = Pcr()
        w._name_pcr_map = lambda i: 'name'
        e.cover('pre')
        _, ex = call(w.write_maps, W.values, W.messages, W.change)
        e.prove('writing does not fail', ex is None, extxt(ex))
        e.cover('post')
    return h


def vcs(tier):
    out = [dict(name='PCRasterWriter', harness=pcr, covers=['pre', 'post'])]
    for c in ('one resolution', 'two resolutions'):
        for k in (False, True):
            out.append(dict(name=f'handed over[{c}{", correction" if k else ""}]', harness=handed(c, k), covers=['pre', 'post', 'written']))
    return out
