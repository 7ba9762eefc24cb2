"""C06 contracts: Corrector construction (geopotential formula, resampling), correct, get_instance."""
from contracts.interp import *
from pyvc.runtime import ModelModule
from pyvc.models.np_model import apply_opaque
from pyvc.syms import SStr

DEM = '/m/dem.map'
MVOUT = 9.969209968386869e+36       # default fill value of the output type (f8)
ASSUMPTIONS = [
    'the configured formulas are arbitrary functions vcF(p, dem, gem) and vcG(z)',
    'the geopotential reader delivers missing cells masked or equal to its missing value; the interpolator by its contract (C07) delivers missing cells masked, '
    'not-a-number or equal to its output missing value',
    'numexpr.evaluate is elementwise and ignores masks (assumed contract, cross-checked by the run-time contracts)',
    'floats are mathematical reals plus NaN',
]
KINDS = [False, True, 'nomask']


class Env06:
    def __init__(self, e, grib=False):
        self.e = e
        L, self.rows, self.cols, self.tmv = setup_world(e)
        self.dem = sym_array('dem', (self.rows, self.cols), nan=True)
        self.dem_mv = sreal_(e, 'dem_mv')
        e.state['rasters'][DEM] = Raster(self.dem, self.dem_mv)
        self.n = sint_(e, 'n')
        e.assume(self.n.t >= 1)
        self.gmv = sreal_(e, 'grib_missing')
        self.readers, self.interps = [], []
        env = self

        class Messages:
            def __init__(self, z):
                self.z = z
                self.missing_value = env.gmv
                self.first_step_range = 'step0'
                self.latlons = (sym_array('glat', (env.n,)), sym_array('glon', (env.n,)))
                self.grid_details = object()
                self.grid_id = GRID

            def first_resolution_values(self):
                return VDict({'step0': self.z})

            @property
            def values_first_or_single_res(self):
                return self.first_resolution_values()

        class GRIBReader:
            def __init__(self, path, *a, **k):
                self.path = path
                self.selected = None
                env.readers.append(self)

            def select_messages(self, **k):
                self.selected = k
                self.z = sym_array(f'z{len(env.readers)}', (env.n,), masked=KINDS[env.zkind])
                self.z0 = self.z.snap()
                self.messages = Messages(self.z)
                return self.messages

            def get_gids_for_grib_intertable(self):
                return 7, sym_array('auxv', (env.n,)), None, None

            def close(self):
                pass

        class Interpolator:
            def __init__(self, ctx, mv_input):
                self.ctx, self.mv_input = ctx, mv_input
                self.mv_out = env.tmv
                self.aux = None
                env.interps.append(self)

            @property
            def mv_output(self):
                return self.mv_out

            def aux_for_intertable_generation(self, *a):
                self.aux = a

            def _result(self, v, grid, gid):
                self.given, self.grid, self.gid = v.snap(), grid, gid
                self.gem = sym_array(f'gem{len(env.interps)}', (env.rows, env.cols), masked=KINDS[env.gkind], nan=True)
                self.gem0 = self.gem.snap()
                return self.gem

            def interpolate(self, lats, lons, v, grid, details, gid=-1, is_second_res=False):
                if self.ctx.is_with_grib_interpolation:
                    return self.interpolate_grib(v, gid, grid, is_second_res)
                return self.interpolate_scipy(lats, lons, v, grid, details)

            def interpolate_grib(self, v, gid, grid_id, is_second_res=False):
                self.how = 'grib'
                return self._result(v, grid_id, gid)

            def interpolate_scipy(self, lats, lons, v, grid_id, details=None):
                self.how, self.ll, self.details = 'scipy', (lats, lons), details
                return self._result(v, grid_id, None)
        L.load('pyg2p')
        cfg = ModelModule('config', dict(GeopotentialsConfiguration=type('G', (), dict(short_names=['fis', 'z', 'FIS', 'orog']))))
        L.mods['pyg2p.main.config'] = cfg
        L.mods['pyg2p.main.readers.grib'] = ModelModule('grib', dict(GRIBReader=GRIBReader))
        m = L.load('pyg2p.main.interpolation')
        m.Interpolator = Interpolator
        self.corr = L.load('pyg2p.main.manipulation.correction')
        self.corr.Interpolator = Interpolator
        self.corr.GRIBReader = GRIBReader
        self.zkind, self.gkind = e.choose(3), e.choose(3)

    def ctx(self, mode='nearest', formula='vcF(p,dem,gem)', gem='vcG(z)', dem=DEM, geo='/g/geo.grib', **over):
        c = context(mode, Tables({}), **{'correction.formula': formula, 'correction.gemFormula': gem, 'correction.demMap': dem, 'execution.doCorrection': True, **over})
        c.geo_file = lambda grid: geo
        return c


def valid_in(a, i, *mvs):
    x = a.at(*i)
    return zand(znot(a.m(*i)), znot(x.nan), *[znot(zb(ew('==', x, m))) for m in mvs])


def correct(e, w, c, p, name, f='vcF', g='vcG'):
    """postcondition of Corrector.correct for the corrector c built with formulas f, g"""
    p0 = p.snap()
    r, ex = call(c.correct, p)
    e.prove(f'{name}: correct does not fail', ex is None, extxt(ex))
    if ex is not None:
        return
    it = w.interps[-1]
    gem = it.gem0
    e.prove(f'{name}: same shape', zand(*[zb(a == b) for a, b in zip(r.shape, p0.shape)]) if len(r.shape) == len(p0.shape) else F)
    i = p0.fresh_index('cell')
    ok = zand(valid_in(p0, i, lift(MVOUT), w.tmv), valid_in(gem, i, w.gmv, w.tmv), valid_in(w.dem, i, w.dem_mv))
    x = r.at(*i)
    res = apply_opaque(f, [p0.at(*i), w.dem.at(*i), gem.at(*i)])
    e.prove(f'{name}: where value, dem and gem are valid the result is the formula', zimp(ok, zand(zor(znot(r.m(*i)), zb(ew('==', res, lift(MVOUT)))), same(x, res))))
    e.prove(f'{name}: elsewhere the result is missing', zimp(znot(ok), zor(r.m(*i), x.nan, zand(znot(x.nan), zb(ew('==', x, lift(MVOUT)))))))
    e.prove(f'{name}: a masked value stays masked', zimp(p0.m(*i), r.m(*i)))


def geopotential(e, w, mode, name, grid, geo='/g/geo.grib', g='vcG'):
    """what the corrector's geopotential height is: the gem formula of the valid values, resampled like the field"""
    rd, it = w.readers[-1], w.interps[-1]
    e.prove(f'{name}: reads the geopotential file', rd.path == geo and list(rd.selected.get('shortName', [])) == ['fis', 'z', 'FIS', 'orog'])
    e.prove(f'{name}: resampled with the interpolation of the field', (it.how == 'grib') == mode.startswith('grib') and it.ctx is not None)
    e.prove(f'{name}: resampled for the grid of the field', zb(it.grid == grid))
    if mode.startswith('grib'):
        e.prove(f'{name}: the geopotential message is there to build a table', it.aux is not None and it.aux[0] == 7 and it.gid == -1)
    else:
        e.prove(f'{name}: coordinates and grid of the geopotential message', it.ll[0] is rd.messages.latlons[0] and it.ll[1] is rd.messages.latlons[1] and it.details is rd.messages.grid_details)
    z0, v = rd.z0, it.given
    i = z0.fresh_index('gcell')
    valid = zand(znot(z0.m(*i)), znot(zb(ew('==', z0.at(*i), w.gmv))))
    e.prove(f'{name}: gem is the formula of every valid geopotential value', zimp(valid, zand(znot(v.m(*i)), same(v.at(*i), apply_opaque(g, [z0.at(*i)])))))
    e.prove(f'{name}: missing geopotential values stay missing', zimp(znot(valid), zor(v.m(*i), zb(ew('==', v.at(*i), w.gmv)))))


def build(mode):
    def h(e):
        w = Env06(e)
        ctx = w.ctx(mode)
        c, ex = call(w.corr.Corrector.get_instance, ctx, GRID)
        e.prove('building the corrector does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.cover('pre')
        geopotential(e, w, mode, 'geopotential', GRID)
        p = sym_array('p', (w.rows, w.cols), masked=KINDS[e.choose(3)], nan=True)
        correct(e, w, c, p, 'correct')
        # used again for the next step: nothing was changed
        p2 = sym_array('p2', (w.rows, w.cols), masked=KINDS[e.choose(3)], nan=True)
        c2, ex = call(w.corr.Corrector.get_instance, w.ctx(mode), GRID)
        e.prove('the next step uses the same corrector', ex is None and c2 is c, extxt(ex))
        if ex is None:
            correct(e, w, c2, p2, 'next step')
        e.cover('post')
    return h


def reuse(what):
    """a second run in the same process that differs in one respect gets its own corrector"""
    def h(e):
        w = Env06(e)
        e.assume(T if w.zkind == 0 and w.gkind == 0 else F)
        a, b = dict(), dict()
        g1 = g2 = GRID
        if what == 'grid':
            g2 = '50$5$4$31'
        elif what == 'grid+dem':
            g1, g2 = SStr(e.fresh(world.S, 'grid1')), SStr(e.fresh(world.S, 'grid2'))
            e.assume(g1.t != g2.t)
            b['dem'] = '1' + DEM
            e.state['rasters']['1' + DEM] = Raster(w.dem, w.dem_mv)
            if e.choose(2):
                a, b = b, a
        elif what == 'dem':
            w.dem2 = sym_array('dem2', (w.rows, w.cols), nan=True)
            e.state['rasters']['/m/dem2.map'] = Raster(w.dem2, w.dem_mv)
            b['dem'] = '/m/dem2.map'
        elif what == 'formula':
            b['formula'] = 'vcF2(p,dem,gem)'
        elif what == 'gem':
            b['gem'] = 'vcG2(z)'
        elif what == 'geopotential':
            b['geo'] = '/g/other.grib'
        elif what == 'mode':
            b['mode'] = 'invdist'
        elif what == 'target':
            b['interpolation.latMap'] = '/m/lat2.map'
        c, ex = call(w.corr.Corrector.get_instance, w.ctx(**a), g1)
        if ex is not None:
            e.prove('the first corrector is built', False, extxt(ex))
            return
        n = len(w.readers)
        c2, ex = call(w.corr.Corrector.get_instance, w.ctx(**b), g2)
        e.prove('the second corrector is built', ex is None, extxt(ex))
        if ex is not None:
            return
        e.cover('pre')
        if what in ('grid', 'grid+dem', 'gem', 'geopotential', 'mode', 'target'):
            e.prove('the second run resamples its own geopotential', len(w.readers) > n)
        if len(w.readers) > n:
            geopotential(e, w, b.get('mode', 'nearest'), 'second run', g2, b.get('geo', '/g/geo.grib'), 'vcG2' if what == 'gem' else 'vcG')
        if what == 'dem':
            w.dem = w.dem2
        p = sym_array('p', (w.rows, w.cols), nan=True)
        correct(e, w, c2, p, 'second run', 'vcF2' if what == 'formula' else 'vcF')
        e.cover('post')
    return h


def vcs(tier):
    out = [dict(name=f'correct[{m}]', harness=build(m), covers=['pre', 'post']) for m in ('nearest', 'invdist', 'grib_nearest', 'grib_invdist')]
    for w in ('grid', 'grid+dem', 'dem', 'formula', 'gem', 'geopotential', 'mode', 'target'):
        out.append(dict(name=f'reuse[{w}]', harness=reuse(w), covers=['pre', 'post']))
    return out
