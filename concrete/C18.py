"""C18: contents of netCDF output files."""
import glob
from outputs import *
from outputs import gen as _gen

RULE = ('random clone maps (PCRaster and netCDF, with and without missing cells), fields plain/masked/nomask, out-of-range table entries, change of resolution, value formats, '
        'scale factors, offsets, valid ranges, output and source step units, through OutputWriter; files read back with netCDF4; non-trivial: always')
NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days'}
HOURS = {'s': 1 / 3600, 'm': 1 / 60, 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}


def cases(rng, tier):
    while True:
        yield _gen(rng, 'netcdf')


def check(c):
    import netCDF4
    with Env() as env:
        try:
            w, fields = run(c, env, 'netcdf')
        except Exception as ex:
            return f'writing a netCDF file: unexpected {exc(ex)}'
        fs = glob.glob(os.path.join(env.out, '*.nc'))
        if len(fs) != 1:
            return f'files written: {os.listdir(env.out)}, expected one netCDF file'
        d = netCDF4.Dataset(fs[0])
        try:
            return content(c, d, fields)
        finally:
            d.close()


def content(c, d, fields):
    if c['prefix'] not in d.variables:
        return f'no variable {c["prefix"]}: {list(d.variables)}'
    v, t = d[c['prefix']], d['time']
    n = len(c['steps'])
    if v.shape != (n, c['rows'], c['cols']):
        return f'shape {v.shape}, expected {(n, c["rows"], c["cols"])}'
    want = c['vf'] or 'f8'
    if v.dtype != np.dtype(want):
        return f'stored as {v.dtype}, value format {c["vf"]}'
    if v.units != 'K':
        return f'unit {v.units!r}, the parameter has K'
    sc, off = c['scale'] if c['scale'] is not None else 1.0, c['offset'] if c['offset'] is not None else 0.0
    if not close(getattr(v, 'scale_factor', 1.0), sc) or not close(getattr(v, 'add_offset', 0.0), off):
        return f'scale factor {getattr(v, "scale_factor", None)} offset {getattr(v, "add_offset", None)}, configured {sc} {off}'
    for a, x in (('valid_min', c['vmin']), ('valid_max', c['vmax'])):
        if (x is None) != (not hasattr(v, a)) or (x is not None and not close(float(getattr(v, a)) * sc + off, x, 1e-6, 1e-6)):
            return f'{a} {getattr(v, a, None)} (scale factor {sc}, offset {off}), configured {x}'
    u = c['units'] if c['units'] in HOURS else c['gunits']
    if t.units != f'{NAMES[u]} since {c["date"]}':
        return f'time units {t.units!r}, expected {NAMES[u]} since {c["date"]} (source {c["gunits"]}, asked for {c["units"]})'
    for k, s in enumerate(c['steps']):
        e = s * HOURS[c['gunits']] / HOURS[u]
        if not close(float(t[k]), e, 2e-7, 1e-9):
            return f'time {k}: {float(t[k])!r}, the step ends at {s} {NAMES[c["gunits"]]} = {e} {NAMES[u]}'
    lat, lon = d['lat'][:], d['lon'][:]
    if not all(close(x, 50.0 - r, 1e-6, 1e-6) for r, x in enumerate(lat)) or not all(close(x, 5.0 + q, 1e-6, 1e-6) for q, x in enumerate(lon)):
        return f'coordinates lat {lat} lon {lon}'
    tol = sc * 0.5000001 if want[0] == 'i' else 0.0
    for k in range(n):
        exp = expected(c, fields, k)
        g = v[k]
        dd, mm = data_of(g), mask_of(g)
        for r in range(c['rows']):
            for q in range(c['cols']):
                e, x = exp[r][q], float(dd[r, q])
                if e is None and not mm[r, q]:
                    return f'layer {k} (step {c["steps"][k]}) cell {(r, q)}: {x!r}, expected missing'
                if e is not None and (mm[r, q] or abs(x - e) > tol + 1e-9 + (1e-6 if want == 'f4' else 1e-12) * max(abs(e), abs(off))):
                    return f'layer {k} (step {c["steps"][k]}) cell {(r, q)}: {"missing" if mm[r, q] else repr(x)}, expected {e!r}'
    return None
