"""C18 contracts: the fields and attributes OutputWriter hands to the netCDF writer, and NetCDFWriter itself."""
from contracts.interp import *
from contracts.writing import *
from fractions import Fraction
from pyvc.models.ext import FILLVALS
from contracts.C17 import clone_world, CLONE
from pyvc.core import lift
from pyvc.containers import SeqInv, ArrInv, sint
from pyvc.models.np_model import asarr as _a

ASSUMPTIONS = [
    'clone values are the missing value of the clone or differ from it by more than a relative 1e-5 (numpy.ma.masked_values)',
    'netCDF4 (assumed contract): assigning a masked array to a variable with automatic mask and scale stores missing_value at masked cells and (value - add_offset) / scale_factor '
    '(rounded to the nearest number for integer formats) at the others; time and coordinate variables store what is assigned',
    'there is at least one step',
    'the values are representable in the value format; floats are mathematical reals plus NaN',
    'the interpolator and the corrector are stand-ins with their contracts (C07, C06)',
]
KINDS = [False, True, 'nomask']
NAMES = {'s': 'seconds', 'm': 'minutes', 'h': 'hours', '3h': '3h steps', '6h': '6h steps', '12h': '12h steps', 'D': 'days', 'M': 'months', 'Y': 'years', '10Y': '10Y steps',
         '30Y': '30Y steps', 'C': 'centuries'}
HOURS = {'s': 1 / 3600, 'm': 1 / 60, 'h': 1, '3h': 3, '6h': 6, '12h': 12, 'D': 24}

HOURS_EXACT = dict(HOURS, s=Fraction(1, 3600), m=Fraction(1, 60))
SCI = dict(DEBUG_BILINEAR_INTERPOLATION=False, DEBUG_MIN_LAT=0, DEBUG_MIN_LON=0, DEBUG_MAX_LAT=1, DEBUG_MAX_LON=1)


def handed(change, correction):
    """what OutputWriter hands to the writer: one layer per step, in the order of the steps, with the time of the step"""
    def h(e):
        W = writing_world(e)
        W.kind = e.choose(3)
        n = steps(e, W, change)
        e.assume(n.t >= 1)
        rows, cols = W.rows, W.cols
        out = sym_array('interpolated', (n, rows, cols), masked=KINDS[W.kind], nan=True)
        cor = sym_array('corrected', (n, rows, cols), masked=KINDS[W.kind], nan=True)

        def layer(a, p):
            s = a.snap()
            return Arr((rows, cols), lambda i, j: s.at(p, i, j), s._dt, NOMASK if s.nomask else (lambda i, j: s.m(p, i, j)))
        W.result = lambda p, c: layer(cor if c else out, p)
        final = cor if correction else out

        def mis(p, i, j):
            return zor(final.m(p, i, j), zb(final.at(p, i, j).nan), zb(ew('==', final.at(p, i, j), W.mv)))

        def want(p):
            nan = lift(float('nan'))
            return Arr((rows, cols), lambda i, j: ite(mis(p, i, j), nan, final.at(p, i, j)), 'f8')

        def eqlayer(a, b):
            if not isinstance(a, Arr) or len(a.shape) != 2:
                return F
            i, j = e.fresh(Z, 'li'), e.fresh(Z, 'lj')
            # masked or not-a-number is the same here
            return zimp(b.inrange(i, j), zor(zand(zb(b.at(i, j).nan), zor(a.m(i, j), zb(a.at(i, j).nan))), zand(znot(a.m(i, j)), same(a.at(i, j), b.at(i, j)))))
        old = e.state['loop_spec']

        def spec(d):
            inv = old(d)
            for name, v in {**d.entry, **d.mut}.items():
                if isinstance(v, VList) and not list.__len__(v) and v.pre is None:
                    inv[name] = AnySeq(name, [(lambda p: SInt(W.E(p)), lambda a, b: (zb(a == b) if isinstance(a, (SInt, int)) else F)), (want, eqlayer)])
            return inv
        e.state['loop_spec'] = spec
        got = []

        class Nc:
            def init_dataset(self, name):
                got.append(name)

            def write(self, values, times, **kw):
                got.append((values, times, kw))

            def close(self):
                pass
        om = dict(namePrefix='pf', scaleFactor=sreal_(e, 'scale'), offset=sreal_(e, 'offset'), validMin=sreal_(e, 'vmin'), validMax=sreal_(e, 'vmax'), valueFormat='f4', outputStepUnits='D')
        w = W.writer(correction=correction, fmt='netcdf', **om)
        w.ctx._vars.update({'parameter.conversionUnit': 'mm', 'parameter.description': 'rain', 'aggregation.type': 'average'})
        w.writer = Nc()
        e.cover('pre')
        _, ex = call(w.write_maps, W.values, W.messages, W.change)
        e.prove('writing does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        ok = len(got) == 2 and isinstance(got[0], (str, SStr)) and isinstance(got[1], tuple)
        e.prove('one file is written', ok)
        if not ok:
            return
        e.prove('named after prefix and aggregation, in the output folder', zb(SStr.of(got[0]) == '/out/pf_average.nc'), str(got[0]))
        v, t, kw = got[1]
        v, t = _a(v), _a(t)
        e.prove('one layer and one time per step', zand(len(v.shape) == 3, dimt(v.shape[0]) == n.t, len(t.shape) == 1, dimt(t.shape[0]) == n.t))
        e.prove('layers of the size of the target', zimp(n.t > 0, zand(dimt(v.shape[1]) == dimt(rows), dimt(v.shape[2]) == dimt(cols))))
        p, i, j = e.fresh(Z, 'layer'), e.fresh(Z, 'row'), e.fresh(Z, 'col')
        e.assume(zand(p >= 0, p < n.t, i >= 0, i < dimt(rows), j >= 0, j < dimt(cols)))
        e.prove('the time of a layer is the end of its step', zb(t.at(p) == SInt(W.E(p))))
        e.prove('a missing cell is handed over as missing', zimp(mis(p, i, j), zor(v.m(p, i, j), zb(v.at(p, i, j).nan))))
        e.prove('a valid cell is handed over unchanged', zimp(znot(mis(p, i, j)), zand(znot(v.m(p, i, j)), same(v.at(p, i, j), final.at(p, i, j)))))
        e.prove('variable name, unit, description, date, time units and packing are handed over',
                kw.get('prefix') == 'pf' and kw.get('unit') == 'mm' and kw.get('var_long_name') == 'rain' and kw.get('data_date') == '20190101' and kw.get('grib_step_units') == 'h'
                and kw.get('output_step_units') == 'D' and kw.get('value_format') == 'f4'
                and all(kw.get(k) is om[o] for k, o in (('scale_factor', 'scaleFactor'), ('offset', 'offset'), ('valid_min', 'validMin'), ('valid_max', 'validMax'))))
        e.cover('post')
    return h


class AnySeq(SeqInv):
    """list that receives one element per iteration; several candidates for the element"""

    def __init__(self, name, cands):
        self.name, self.cands, self.guard = name, cands, None

    def _cur(self, d):
        for k, c in enumerate(self.cands):
            if (self.name, k) not in d.info['dropped']:
                return k, c
        return None, None

    def entry(self, d, v):
        pass

    def dead(self, d):
        return self._cur(d)[0] is None

    def havoc(self, d, v):
        k, c = self._cur(d)
        if k is None:
            raise Unsupported('list built in a loop without contract')
        self.elem, self.eq = c
        return SeqInv.havoc(self, d, v)

    def check(self, d, v):
        k, c = self._cur(d)
        self.elem, self.eq = c
        from pyvc.core import Restart
        tail = list.__getitem__(v, slice(None))
        ok = len(tail) == 1 and eng().known(self.eq(tail[0], self.elem(d.pos_prev)))
        if not ok:
            d.info['dropped'].add((self.name, k))
            raise Restart()



class Variable:
    """netCDF4 variable with automatic mask and scale; a holds what is stored"""

    def __init__(self, ds, name, fmt, dims, kw):
        d = self.__dict__
        d['ds'], d['name'], d['fmt'], d['dims'], d['kw'], d['attrs'] = ds, name, fmt, tuple(dims), kw, {}
        d['a'] = sym_array(f'stored_{name}', tuple(ds.dims[x] for x in dims)) if all(ds.dims[x] is not None for x in dims) else None
        if d['a'] is not None:
            d['a']._dt = 'f8'

    def __setattr__(self, k, v):
        self.attrs[k] = v

    def __getattr__(self, k):
        if k in self.__dict__.get('attrs', {}):
            return self.attrs[k]
        raise AttributeError(k)

    def set_auto_maskandscale(self, on):
        self.attrs['__auto'] = bool(on)

    def enc(self, v):
        """stored numbers of an assigned array"""
        s = _a(v).snap()
        at = self.attrs
        fl = self.fmt[0] == 'f'
        mv = lift(at['missing_value']) if 'missing_value' in at else None
        sc, off = at.get('scale_factor'), at.get('add_offset')

        def fn(*i):
            x = core.toreal(s.at(*i))
            if sc is not None:
                x = ew('/', ew('-', x, lift(off)), lift(sc))
            if not fl:
                x = rounded(x) if sc is not None else trunc(x)
            if s.nomask or mv is None:
                return x
            return ite(s.m(*i), core.toreal(mv), x)
        return Arr(s.shape, fn, 'f8')

    def __setitem__(self, k, v):
        c = self.enc(v)
        if self.a is None:
            if not (isinstance(k, slice) and k == slice(None) and self.dims == ('time',)):
                raise Unsupported('write into an unlimited dimension')
            self.ds.dims['time'] = c.shape[0]
            self.__dict__['a'] = c
            return
        self.a[k] = c

    def __getitem__(self, k):
        raise Unsupported('reading the file back')


def rounded(x):
    r = core.uf('ncround', core.R, core.R)(x.t)
    eng().axiom(('ncround', r.get_id()), zand(r - x.t <= z3.Q(1, 2), x.t - r <= z3.Q(1, 2), z3.IsInt(r)))
    eng().keep.append(r)
    return SReal(r)


def trunc(x):
    r = core.uf('nctrunc', core.R, core.R)(x.t)
    eng().axiom(('nctrunc', r.get_id()), zimp(z3.IsInt(x.t), r == x.t))
    eng().keep.append(r)
    return SReal(r)


class Dataset:
    def __init__(self, path, mode='r', format='NETCDF4', **k):
        d = self.__dict__
        d.update(path=path, mode=mode, format=format, dims={}, variables={}, closed=False)
        eng().state.setdefault('datasets', []).append(self)

    def createDimension(self, name, n=None):
        self.dims[name] = n

    def createVariable(self, name, fmt, dims=(), fill_value=None, zlib=False, complevel=4, **k):
        v = Variable(self, name, fmt, dims, dict(fill_value=fill_value))
        self.variables[name] = v
        return v

    def close(self):
        self.__dict__['closed'] = True


def nc(fmt, how, valid, clone='pcraster'):
    """NetCDFWriter: any number of layers, any field, mask, clone, scale factor and offset"""
    def h(e):
        e.state['open'] = world.open_
        L = loader()
        rows, cols, n = sint_(e, 'rows'), sint_(e, 'cols'), sint_(e, 'steps')
        e.assume(zand(rows.t >= 1, cols.t >= 1, n.t >= 1))
        c, mv, geo = clone_world(e, L, rows, cols)
        lat, lon = sym_array('lat', (rows, cols)), sym_array('lon', (rows, cols))
        tmv = sreal_(e, 'target_mv')
        e.state['rasters'].update({LAT: Raster(lat, tmv), LON: Raster(lon, tmv)})
        L.load('pyg2p')
        L.mods['pyg2p.main.interpolation'] = ModelModule('interpolation', dict(Interpolator=object, **SCI))
        L.mods['pyg2p.main.interpolation.scipy_interpolation_lib'] = ModelModule('sci', dict(SCI))
        L.mods['pyg2p.main.manipulation.correction'] = ModelModule('correction', dict(Corrector=object))
        L.mods['netCDF4'] = ModelModule('netCDF4', dict(default_fillvals=FILLVALS, Dataset=Dataset))

        class NetCDFReader:
            """a netCDF map by contract: values masked at the missing cells"""

            def __init__(self, path):
                self.path = path

            @property
            def mv(self):
                return mv

            @property
            def values(self):
                return c.copy()

            def get_lat_lon_values(self):
                return lat.copy(), lon.copy()
        L.mods['pyg2p.main.readers.netcdf'] = ModelModule('netcdf', dict(NetCDFReader=NetCDFReader))
        m = L.load('pyg2p.main.writers.netcdf')
        w, ex = call(m.NetCDFWriter, *((CLONE, LAT, LON) if clone == 'pcraster' else ('/m/clone.nc', '/m/clone.nc', '/m/clone.nc')))
        e.prove('opening the writer does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.cover('pre')
        v = sym_array('v', (n, rows, cols), masked=KINDS[e.choose(3)], nan=True)
        v0 = v.snap()
        E = core.uf('E', Z, Z)
        times = Arr((n,), lambda k: SInt(E(k)), 'i4')
        g, u = how
        kw = dict(prefix='pf', unit='mm', var_long_name='rain', data_date='20190101', grib_step_units=g, output_step_units=u, value_format=fmt)
        sc, off = sreal_(e, 'scale'), sreal_(e, 'offset')
        e.assume(sc.t > 0)
        kw.update(scale_factor=sc, offset=off)
        vm = [sreal_(e, 'vmin'), sreal_(e, 'vmax')] if valid else [None, None]
        kw.update(valid_min=vm[0], valid_max=vm[1])

        def spec(d):
            inv = {}
            for path, o in d.mut.items():
                var = d.loc.get(path.split('.')[0])
                if not isinstance(var, Variable) or not isinstance(o, Arr) or len(o.shape) != 3:
                    continue
                if not hasattr(d, 'first'):
                    d.first = {}
                init = o.snap()
                cands = []
                for name, x in list(d.loc.items()):
                    if isinstance(x, Arr) and len(x.shape) == 3:
                        cands.append((name, (lambda var, x, init: lambda d: Arr(init.shape, (lambda p, enc: lambda t, i, j: ite(zand(t >= d.lo, t < p), enc.at(t, i, j), init.at(t, i, j)))(d.pos, var.enc(x)), 'f8'))(var, x, init)))
                inv[path] = ArrInv(path, cands)
            return inv
        e.state['loop_spec'] = spec
        _, ex = call(w.init_dataset, '/out/x.nc')
        e.prove('creating the file does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        _, ex = call(w.write, v, times, **kw)
        e.prove('writing does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        _, ex = call(w.close)
        e.prove('closing does not fail', ex is None, extxt(ex))
        ds = [d for d in e.state.get('datasets', []) if d.path == '/out/x.nc']
        e.prove('one file is written and closed', len(ds) == 1 and ds[0].mode == 'w' and ds[0].closed)
        if len(ds) != 1:
            return
        ds = ds[0]
        ok = all(k in ds.variables and ds.variables[k].a is not None for k in ('pf', 'time', 'lat', 'lon'))
        e.prove('the file has the variable and the coordinates', ok)
        if not ok:
            return
        pv, tv = ds.variables['pf'], ds.variables['time']
        want = fmt or 'f8'
        e.prove('stored in the configured format', pv.fmt == want and tuple(pv.dims) == ('time', 'lat', 'lon'))
        e.prove('one layer per step, size of the clone', zand(dimt(pv.a.shape[0]) == n.t, dimt(pv.a.shape[1]) == rows.t, dimt(pv.a.shape[2]) == cols.t, dimt(tv.a.shape[0]) == n.t))
        at = pv.attrs
        e.prove('unit, scale factor and offset are stored', at.get('units') == 'mm' and at.get('__auto', True) and zand(zb(lift(at.get('scale_factor')) == sc), zb(lift(at.get('add_offset')) == off)))
        for k, x in (('valid_min', vm[0]), ('valid_max', vm[1])):
            if x is None:
                e.prove(f'no {k} unless configured', k not in at)
            else:
                e.prove(f'{k} decodes to the configured value', k in at and zb(ew('+', ew('*', lift(at[k]), sc), off) == x))
        fill = pv.kw.get('fill_value')
        e.prove('missing value and fill value are declared and the same', 'missing_value' in at and fill is not None and at['missing_value'] == fill)
        t, i, j = e.fresh(Z, 'layer'), e.fresh(Z, 'row'), e.fresh(Z, 'col')
        e.assume(zand(t >= 0, t < n.t, i >= 0, i < rows.t, j >= 0, j < cols.t))
        mis = zor(zb(ew('==', c.at(i, j), mv)), v0.m(t, i, j), zb(v0.at(t, i, j).nan))
        r = pv.a.at(t, i, j)
        e.prove('missing in the clone or in the field: stored as the missing value', zimp(mis, same(r, lift(at['missing_value']))))
        dec = ew('+', ew('*', r, sc), off)
        x = v0.at(t, i, j)
        if want[0] == 'f':
            e.prove('every other cell decodes to the value of the field', zimp(znot(mis), same(dec, x)))
        else:
            e.prove('every other cell decodes to the value of the field within half the scale factor',
                    zimp(znot(mis), zand(znot(dec.nan), (dec.t - x.t) * 2 <= sc.t, (x.t - dec.t) * 2 <= sc.t)))
        # time axis
        uu = u if u in NAMES and (u == g or (u in HOURS and g in HOURS)) else g
        e.prove('announced time unit', tv.attrs.get('units') == f'{NAMES[uu]} since 20190101', str(tv.attrs.get('units')))
        T_ = core.toreal(tv.a.at(t)).t
        if uu == g:
            e.prove('time of a layer', T_ == z3.ToReal(E(t)))
        else:
            f = z3.Q(*(Fraction(HOURS_EXACT[g]) / Fraction(HOURS_EXACT[uu])).as_integer_ratio())
            d = T_ - z3.ToReal(E(t)) * f
            lim = z3.If(E(t) >= 0, z3.ToReal(E(t)), -z3.ToReal(E(t))) * f * z3.Q(1, 10 ** 12)
            e.prove('time of a layer in the announced unit (up to rounding)', zand(d <= lim, -d <= lim))
        e.prove('coordinates are the first row and column of the target maps', zimp(znot(zor(zb(ew('==', lon.at(z3.IntVal(0), j), tmv)), zb(ew('==', lat.at(i, z3.IntVal(0)), tmv)))),
                zand(same(ds.variables['lon'].a.at(j), lon.at(z3.IntVal(0), j)), same(ds.variables['lat'].a.at(i), lat.at(i, z3.IntVal(0))))))
        e.cover('post')
    return h


def vcs(tier):
    out = []
    for c in ('one resolution', 'two resolutions'):
        for k in (False, True):
            out.append(dict(name=f'handed over[{c}{", correction" if k else ""}]', harness=handed(c, k), covers=['pre', 'post']))
    cases = [(f, ('h', None), False, 'pcraster') for f in ('f8', 'f4', 'i1', 'i2', 'i4', None)] + [('f8', ('h', None), True, 'pcraster'), ('i2', ('D', 'D'), True, 'netcdf')]
    cases += [('f8', (g, u), False, 'pcraster') for g in HOURS for u in HOURS if u != g] + [('f8', ('h', 'M'), False, 'netcdf'), ('f8', ('M', 'D'), False, 'pcraster'), ('f8', ('h', 'x'), False, 'pcraster')]
    for f, how, val, cl in cases:
        out.append(dict(name=f'NetCDFWriter[{f} {how[0]}->{how[1]}{" valid range" if val else ""} {cl} clone]', harness=nc(f, how, val, cl), covers=['pre', 'post']))
    return out
