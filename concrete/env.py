"""A throw-away pyg2p installation for one run-time contract case: user folder, global folder, maps, GRIB files, command files."""
import gzip
import json
import os
import shutil
import numpy as np

MV32 = -3.4028234663852886e+38
_n = [0]


def _gdal():
    from osgeo import gdal
    gdal.DontUseExceptions()
    return gdal


def write_pcr(path, a, geo=(5.0, 1.0, 0.0, 50.0, 0.0, -1.0), mv=MV32):
    """PCRaster scalar map; NaN cells are missing"""
    gdal = _gdal()
    a = np.array(a, dtype='f4')
    a = np.where(np.isnan(a), np.float32(mv), a).astype('f4')
    d = gdal.GetDriverByName('MEM').Create('', a.shape[1], a.shape[0], 1, gdal.GDT_Float32)
    d.SetGeoTransform(geo)
    b = d.GetRasterBand(1)
    b.SetNoDataValue(mv)
    b.WriteArray(a)
    o = gdal.GetDriverByName('PCRaster').CreateCopy(path, d, options=['PCRASTER_VALUESCALE=VS_SCALAR'])
    o = None
    d = None
    for f in (path + '.aux.xml',):
        if os.path.exists(f):
            os.unlink(f)


def read_pcr(path):
    gdal = _gdal()
    d = gdal.Open(path)
    b = d.GetRasterBand(1)
    a = b.ReadAsArray()
    r = (a, b.GetNoDataValue(), d.GetGeoTransform())
    b = d = None
    return r


def grib_message(ni=4, nj=3, lat1=50.0, lon1=5.0, dlat=1.0, dlon=1.0, short='2t', step=(0, 0), steptype=None, level=None, date=20190101, time=0, values=None,
                 missing=None, pert=None, units=1, bits=24, mvalue=9999, edition=1, ltype=None):
    import eccodes as ec
    h = ec.codes_grib_new_from_samples('regular_ll_pl_grib1' if ltype == 'pl' else 'regular_ll_sfc_grib1')
    s = lambda k, v: ec.codes_set(h, k, v)
    s('Ni', ni), s('Nj', nj)
    s('latitudeOfFirstGridPointInDegrees', lat1), s('longitudeOfFirstGridPointInDegrees', lon1)
    s('latitudeOfLastGridPointInDegrees', lat1 - dlat * (nj - 1)), s('longitudeOfLastGridPointInDegrees', lon1 + dlon * (ni - 1))
    s('iDirectionIncrementInDegrees', dlon), s('jDirectionIncrementInDegrees', dlat)
    s('dataDate', date), s('dataTime', time)
    if pert is not None:
        s('setLocalDefinition', 1)
        s('localDefinitionNumber', 1)
        s('perturbationNumber', pert)
    s('shortName', short)
    if units != 1:
        s('indicatorOfUnitOfTimeRange', units)
    st = steptype or ('accum' if step[0] != step[1] else 'instant')
    if st == 'instant':
        s('endStep', step[1])
    else:
        s('stepType', st)
        s('stepRange', f'{step[0]}-{step[1]}')
    if level is not None:
        s('level', level)
    v = np.array(values if values is not None else np.arange(ni * nj), dtype='f8').ravel().copy()
    if missing is not None:
        s('missingValue', mvalue)
        s('bitmapPresent', 1)
        v[np.array(missing, dtype=bool)] = mvalue
    s('bitsPerValue', bits)
    ec.codes_set_values(h, v)
    return h


def write_grib(path, handles):
    import eccodes as ec
    with open(path, 'wb') as f:
        for h in handles:
            ec.codes_write(h, f)
            ec.codes_release(h)


def decoded(path):
    """values and keys of every message as an independent reader sees them"""
    import eccodes as ec
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                break
            out.append((ec.codes_get(h, 'startStep'), ec.codes_get(h, 'endStep'), ec.codes_get_values(h)))
            ec.codes_release(h)
    return out


class Env:
    def __init__(self, conf=True, user_tables=True):
        self.scratch = os.environ['VC_SCRATCH']
        _n[0] += 1
        self.root = os.path.join(self.scratch, f'e{_n[0]}')
        os.makedirs(self.root)
        self.home = os.path.join(os.environ['HOME'], '.pyg2p')
        shutil.rmtree(self.home, ignore_errors=True)
        os.makedirs(self.home)
        self.user = self.mkdir('user_tables')
        self.glob = self.mkdir('global_tables')
        self.geo = self.mkdir('user_geo')
        self.globgeo = self.mkdir('global_geo')
        self.gconf = self.mkdir('configuration/global')
        self.out = self.mkdir('out')
        os.chdir(self.root)
        self.jdump(os.path.join(self.gconf, 'global_conf.json'), {'geopotentials': self.globgeo, 'intertables': self.glob})
        self.parameters({'2t': {'@description': 'temp', '@shortName': '2t', '@unit': 'K'}})
        if conf:
            self.conf({'INTERTABLES': self.user, 'GEOPOTENTIALS': self.geo})

    def __enter__(self):
        return self

    def __exit__(self, *a):
        os.chdir(self.scratch)
        for r, ds, fs in os.walk(self.root):
            os.chmod(r, 0o755)
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.rmtree(self.home, ignore_errors=True)

    def mkdir(self, n):
        d = os.path.join(self.root, n)
        os.makedirs(d, exist_ok=True)
        return d

    def path(self, n):
        return os.path.join(self.root, n)

    @staticmethod
    def jdump(p, o):
        with open(p, 'w') as f:
            json.dump(o, f)

    def parameters(self, d):
        self.jdump(os.path.join(self.home, 'parameters.json'), d)

    def conf(self, d, name='paths.conf'):
        with open(os.path.join(self.home, name), 'w') as f:
            for k, v in d.items():
                f.write(f'{k}={v}\n')

    def intertables(self, d):
        self.jdump(os.path.join(self.home, 'intertables.json'), d)

    def read_intertables(self):
        with open(os.path.join(self.home, 'intertables.json')) as f:
            return json.load(f)

    def geopotentials(self, d):
        self.jdump(os.path.join(self.home, 'geopotentials.json'), d)

    def maps(self, lats, lons, area=None, geo=(5.0, 1.0, 0.0, 50.0, 0.0, -1.0)):
        write_pcr(self.path('lat.map'), lats, geo)
        write_pcr(self.path('lon.map'), lons, geo)
        write_pcr(self.path('clone.map'), np.ones(np.shape(lats)) if area is None else area, geo)
        return self.path('lat.map'), self.path('lon.map'), self.path('clone.map')

    def command(self, mode='nearest', param=None, outmaps=None, interp=None, aggregation=None, name='cmd.json', lat='lat.map', lon='lon.map', clone='clone.map', execution=None):
        p = {'@shortName': '2t'}
        p.update(param or {})
        i = {'@mode': mode, '@latMap': self.path(lat), '@lonMap': self.path(lon)}
        i.update(interp or {})
        o = {'@cloneMap': self.path(clone), '@unitTime': '24', '@namePrefix': 'pf', 'Interpolation': i}
        o.update(outmaps or {})
        e = {'@name': 'case', 'Parameter': p, 'OutMaps': o}
        if aggregation:
            e['Aggregation'] = aggregation
        e.update(execution or {})
        self.jdump(self.path(name), {'Execution': e})
        return self.path(name)

    def reset_process_state(self):
        """what a new process would start with"""
        from pyg2p.main import config
        if hasattr(config.GlobalConf, 'instance'):
            config.GlobalConf.instance = None
        from pyg2p.main.manipulation import correction
        c = getattr(correction, 'Corrector', None)
        if isinstance(getattr(c, 'instances', None), dict):
            c.instances.clear()

    def context(self, args=(), cmd='cmd.json', inp='in.grib'):
        from pyg2p.main.context import ExecutionContext
        self.reset_process_state()
        if not os.path.exists(self.path(inp)):
            open(self.path(inp), 'wb').close()
        return ExecutionContext(['-c', self.path(cmd), '-i', self.path(inp), '-o', self.out, '-l', 'ERROR'] + list(args))


def save_scipy_table(path, indexes, coeffs, gz=None):
    t = np.rec.fromarrays((np.asarray(indexes), np.asarray(coeffs)), names=('indexes', 'coeffs'))
    save_table(path, t, gz)


def save_table(path, t, gz=None):
    if gz or (gz is None and path.endswith('.gz')):
        with gzip.GzipFile(path, 'w') as f:
            np.save(f, t)
    else:
        with open(path, 'wb') as f:
            np.save(f, t)


def load_table(path):
    if path.endswith('.gz'):
        with gzip.GzipFile(path, 'r') as f:
            return np.load(f)
    return np.load(path)
