"""shared by C16-C18: writing maps through OutputWriter (stored nearest-neighbour tables) and through a whole run of the Controller"""
import os
import re
import random
from collections import OrderedDict
from types import SimpleNamespace
from common import *
from env import Env, write_pcr, read_pcr, write_grib, grib_message, save_scipy_table, MV32
import C07 as c07

GRIDS = [c07.GRID, c07.GRID + '9']
PCRMV = float(np.float32(MV32))


def write_nc_map(path, lats, lons, a, mv=None, dtype='f4', names=('lat', 'lon')):
    import netCDF4
    d = netCDF4.Dataset(path, 'w', format='NETCDF4_CLASSIC')
    d.createDimension(names[0], len(lats))
    d.createDimension(names[1], len(lons))
    d.createVariable(names[0], 'f8', (names[0],))[:] = lats
    d.createVariable(names[1], 'f8', (names[1],))[:] = lons
    v = d.createVariable('area', dtype, names, **({'fill_value': mv} if mv is not None else {}))
    if mv is not None:
        v.missing_value = np.dtype(dtype).type(mv)
    v[:] = np.where(np.isnan(a), mv, a) if mv is not None else a
    d.close()


def gen(rng, fmt):
    rows, cols = rng.randint(2, 4), rng.randint(2, 5)
    n = rng.randint(2, 9)
    c = dict(rows=rows, cols=cols, n=n, clone=[[None if rng.random() < 0.25 else rng.choice([1.0, 0.0, 250.5]) for _ in range(cols)] for _ in range(rows)])
    if rng.random() < 0.3:
        c['clone'] = [[1.0] * cols for _ in range(rows)]
    k = rng.randint(1, 5)
    st, steps = rng.choice([0, 3, 6, 24, 150]), []
    for _ in range(k):
        steps.append(st)
        st += rng.choice([1, 3, 6, 24, 137])
    c['steps'] = steps
    c['second'] = rng.randint(1, k) if rng.random() < 0.3 else None       # this step and later ones: second resolution
    if c['second'] == k:
        c['second'] = None
    c['fields'] = [gen_arr(rng, [n], lo=-300, hi=900, special=(0.0, 1e-3)) for _ in steps]
    for f in c['fields']:
        f['data'] = [float(np.float32(x)) for x in f['data']]
    c['tables'] = [[n if rng.random() < 0.12 else rng.randrange(n) for _ in range(rows * cols)] for _ in range(2)]
    c['target'] = rng.choice(['pcr', 'pcr', 'nc'])
    c['prefix'] = rng.choice(['pf', 't', 'pf10', 'rain', 'abcdefgh', 'T_2m', 'e0', 'r'])
    c['fmap'], c['ext'] = rng.choice([1, 1, 1, 10, 7, 97]), rng.choice([1, 1, 4, 2, 24, 90])
    if fmt == 'netcdf':
        c['clonefmt'] = rng.choice(['pcr', 'nc', 'nc-none'])
        if c['clonefmt'] == 'nc-none':
            c['clone'] = [[1.0 if x is None else x for x in r] for r in c['clone']]
        c['vf'] = rng.choice([None, 'f8', 'f4', 'i2', 'i4', 'f8'])
        c['scale'], c['offset'] = rng.choice([(None, None), (None, None), (0.1, 0.0), (0.79, 0.0), (0.01, 273.15), (0.05, -20.0), (2.0, None), (None, 100.0)])
        if c['vf'] == 'i2':
            c['scale'] = rng.choice([0.1, 0.05])
        c['vmin'], c['vmax'] = rng.choice([(None, None), (None, None), (-400.0, 1000.0), (-1000.5, None)])
        c['units'] = rng.choice([None, None, 'h', '3h', '6h', '12h', 'D', 's', 'm', 'X', 'M'])
        c['gunits'] = rng.choice(['h', 'h', 'h', '3h', '6h', 'm'])
        c['date'] = rng.choice(['20190101', '20240229 0600'])
    return c


def setup(c, env, fmt):
    rows, cols = c['rows'], c['cols']
    lat1, lon1 = [50.0 - r for r in range(rows)], [5.0 + q for q in range(cols)]
    lats, lons = np.array([[x] * cols for x in lat1]), np.array([lon1] * rows)
    clone = np.array([[np.nan if x is None else x for x in r] for r in c['clone']])
    geo = (4.5, 1.0, 0.0, 50.5, 0.0, -1.0)
    env.maps(lats, lons, clone, geo)
    lat, lon, cl = 'lat.map', 'lon.map', 'clone.map'
    if c['target'] == 'nc':
        write_nc_map(env.path('target.nc'), lat1, lon1, np.ones((rows, cols)), None)
        lat = lon = 'target.nc'
    if c.get('clonefmt') == 'nc':
        write_nc_map(env.path('clone.nc'), lat1, lon1, clone, -9999.0)
        cl = 'clone.nc'
    elif c.get('clonefmt') == 'nc-none':
        write_nc_map(env.path('clone.nc'), lat1, lon1, clone, None)
        cl = 'clone.nc'
    om = {'@namePrefix': c['prefix'], '@format': fmt}
    for k, o in (('fmap', '@fmap'), ('ext', '@ext'), ('scale', '@scaleFactor'), ('offset', '@offset'), ('vmin', '@validMin'), ('vmax', '@validMax'), ('vf', '@valueFormat'),
                 ('units', '@outputStepUnits')):
        if c.get(k) is not None:
            om[o] = c[k]
    env.command(mode='nearest', outmaps=om, lat=lat, lon=lon, clone=cl, aggregation={'@step': '6', '@type': 'instantaneous'} if fmt == 'netcdf' else None)
    from pyg2p.main.interpolation.latlong import LatLong
    ident = LatLong(env.path(lat), env.path(lon)).identifier
    reg = {}
    for g in range(2):
        fn = f't{g}.npy'
        save_scipy_table(os.path.join(env.user, fn), np.array(c['tables'][g], dtype='i8'), np.zeros(rows * cols))
        reg[f'I{GRIDS[g].replace("$", "_")}_{ident}scipy_nearest'] = {'filename': fn, 'method': 'nearest', 'source_shape': [c['n']], 'target_shape': [rows, cols]}
    env.intertables(reg)
    return env.context()


class Details:
    def __init__(self, second=None):
        self.second = second

    def get_2nd_resolution(self):
        return self.second


def run(c, env, fmt):
    """write the maps -> (writer, fields as given)"""
    ctx = setup(c, env, fmt)
    from pyg2p import Step
    from pyg2p.main.writers import OutputWriter
    vals, change = OrderedDict(), None
    fields = [mk(f) for f in c['fields']]
    for k, t in enumerate(c['steps']):
        s = Step(t, t, 10, 6, 0)
        vals[s] = fields[k].copy()
        if c['second'] is not None and k == c['second']:
            change = s
    ms = SimpleNamespace(latlons=(None, None), latlons_2nd=(None, None), grid_details=Details(Details()), grid_id=GRIDS[0], grid2_id=GRIDS[1],
                         have_resolution_change=lambda: change is not None, data_date=c.get('date', '20190101'), step_units=c.get('gunits', 'h'))
    w = OutputWriter(ctx, SimpleNamespace(mv=-9999.0))
    w.write_maps(vals, ms, change_res_step=change)
    w.close()
    return w, fields


def expected(c, fields, k):
    """grid of values / None of map k"""
    t = c['tables'][1 if c['second'] is not None and k >= c['second'] else 0]
    d, m = data_of(fields[k]), mask_of(fields[k])
    out = []
    for r in range(c['rows']):
        out.append([])
        for q in range(c['cols']):
            i = t[r * c['cols'] + q]
            out[-1].append(None if c['clone'][r][q] is None or i >= c['n'] or m[i] else float(d[i]))
    return out


def name8_3(prefix, number):
    s = prefix + '0' * (11 - len(prefix) - len(str(number))) + str(number)
    return s[:8] + '.' + s[8:]


def fits(c):
    return len(c['prefix']) + len(str(c['fmap'] + (len(c['steps']) - 1) * c['ext'])) <= 11
