"""shared harness parts for the Interpolator contracts"""
from pyvc.harness import *
from pyvc.arr import sym_array, Arr, asarr, NOMASK, dimt, lin, full
from pyvc.models import world
from pyvc.models.world import Raster, RecArr, Stored, fs
from pyvc.containers import VDict, VList

NNEAR = {'nearest': 1, 'invdist': 4, 'adw': 11, 'cdd': 11, 'bilinear': 4, 'triangulation': 3, 'bilinear_delaunay': 4}
SUFFIX = {'grib_nearest': 'grib_nearest', 'grib_invdist': 'grib_invdist', 'nearest': 'scipy_nearest', 'invdist': 'scipy_invdist', 'adw': 'scipy_adw',
          'cdd': 'scipy_cdd', 'bilinear': 'scipy_bilinear', 'triangulation': 'scipy_triangulation', 'bilinear_delaunay': 'scipy_bilinear_delaunay'}
GRID = '$'.join(['50', '5', '4', '3'] + [str(20 + k) for k in range(60)])    # an id as long as that of a reduced grid
IDENT = '5_50_1_-1_1.00_2.00_5_50_1_-1_1.00_2.00'
LAT, LON = '/m/lat.map', '/m/lon.map'


class Ctx:
    """execution parameters as the interpolator reads them"""

    def __init__(self, vars_, intertables, geopotentials=None):
        self._vars = vars_

        class Conf:
            pass
        self.configuration = Conf()
        self.configuration.intertables = intertables
        self.configuration.geopotentials = geopotentials

    def get(self, k, d=None):
        return self._vars.get(k, d)

    def __getitem__(self, k):
        return self._vars[k]

    @property
    def is_with_grib_interpolation(self):
        return self._vars['interpolation.mode'] in ('grib_invdist', 'grib_nearest')

    @property
    def must_do_correction(self):
        return self._vars.get('execution.doCorrection', False)


class Tables:
    """registry of interpolation tables (stand-in for IntertablesConfiguration where its own contract is not in question)"""

    def __init__(self, vars_):
        self.vars = VDict(vars_)
        self.user_vars = VDict({})
        self.events = []

    def check_write(self):
        self.events.append('check_write')

    def dump(self):
        self.events.append('dump')


def context(mode, tables, create=False, user='/user', glob='/global', source='src.grib', **over):
    v = {'interpolation.mode': mode, 'interpolation.cdd_map': '', 'interpolation.cdd_mode': '', 'interpolation.cdd_options': None, 'interpolation.use_broadcasting': False,
         'interpolation.num_of_splits': None, 'input.file': '/in/' + source, 'interpolation.dirs': VDict({'user': user, 'global': glob}),
         'interpolation.rotated_target': False, 'interpolation.latMap': LAT, 'interpolation.lonMap': LON, 'interpolation.parallel': False, 'interpolation.create': create}
    v.update(over)
    return Ctx(v, tables)


def setup_world(e, rows=None, cols=None):
    """file system, target maps -> (loader, rows, cols, missing value)"""
    e.state['open'] = world.open_
    L = loader()
    if rows is None:
        rows, cols = sint_(e, 'rows'), sint_(e, 'cols')
        e.assume(zand(rows.t >= 1, cols.t >= 1))
    mv = sreal_(e, 'mv')
    lat, lon = sym_array('lat', (rows, cols)), sym_array('lon', (rows, cols))
    e.state['rasters'] = {LAT: Raster(lat, mv, 1.0, 2.0), LON: Raster(lon, mv, 1.0, 2.0)}
    return L, rows, cols, mv


def table_id(mode, grid=GRID):
    return f'I{grid.replace("$", "_")}_{IDENT}{SUFFIX[mode]}'


def put(path, content, kind):
    f = fs()
    t = world.term(path)
    f.content.append((t, Stored(content), kind))
    eng().assume(f.isfile0(t))


def field(e, name, n, k=None):
    return sym_array(name, (n,), masked=[False, True, 'nomask'][e.choose(3) if k is None else k])


def miss(r, idx, mv):
    """the result cell counts as missing"""
    x = r.at(*idx)
    return zor(r.m(*idx), zb(x.nan), zand(znot(x.nan), zb(ew('==', x, mv))))
