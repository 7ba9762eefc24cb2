"""Contracts shared by C12 and C13: looking up, creating, storing and re-reading interpolation tables."""
import ast
import os
from contracts.interp import *
from pyvc.runtime import ModelModule
from pyvc.syms import SStr
from pyvc.load import REPO

HOME = '/home/u/.pyg2p/'
CONF = HOME + 'intertables.json'


def no_stream(*a):
    raise FileNotFoundError(2, 'No such file or directory')


OVER = {'pkg_resources': lambda l: ModelModule('pkg_resources', dict(resource_stream=no_stream)), 'ftplib': lambda l: ModelModule('ftplib', dict(FTP=None))}


class User:
    config_dir = HOME

    def __init__(self, **v):
        self.v = v

    def get(self, k):
        return self.v.get(k)


def bind(fn, a, kw):
    """arguments of a ScipyInterpolation method in the order of its parameters (read from the current source)"""
    src = open(os.path.join(REPO, 'src/pyg2p/main/interpolation/scipy_interpolation_lib.py')).read()
    cls = [n for n in ast.parse(src).body if isinstance(n, ast.ClassDef) and n.name == 'ScipyInterpolation'][0]
    f = [n for n in cls.body if isinstance(n, ast.FunctionDef) and n.name == fn][0]
    names = [x.arg for x in f.args.args]
    d = dict(zip(names[len(names) - len(f.args.defaults):], [ast.literal_eval(x) for x in f.args.defaults]))
    if len(a) > len(names):
        raise TypeError(f'{fn}() takes {len(names)} arguments')
    d.update(zip(names, a))
    for k, v in kw.items():
        if k not in names or k in names[:len(a)]:
            raise TypeError(f'{fn}() got an unexpected argument {k!r}')
        d[k] = v
    if len(d) < len(names):
        raise TypeError(f'{fn}() missing arguments')
    return [d[n] for n in names][1:]


class Builders:
    """contract of the table builders (proved separately: C08-C11): indexes in 0..n, right shapes, otherwise arbitrary"""

    def __init__(self, e, mode, nt, n):
        self.calls, self.made, self.asked, self.tables = [], [], [], []
        b = self
        k = NNEAR.get(mode)

        class ScipyInterpolation:
            def __init__(self, *a, **kw):
                b.made.append(bind('__init__', (self,) + a, kw))

            def interpolate(self, *a, **kw):
                b.asked.append(bind('interpolate', (self,) + a, kw))
                b.calls.append('scipy')
                sh = (nt,) if k == 1 else (nt, k)
                ix, w = sym_array('newidx', sh, 'i8'), sym_array('neww', sh, nan=True)
                bounded(e, ix, k, nt, n)
                b.tables.append((ix.snap(), w.snap()))
                return sym_array('newres', (nt,)), w, ix
        self.scipy = ModelModule('scipy_interpolation_lib', dict(ScipyInterpolation=ScipyInterpolation, DEBUG_BILINEAR_INTERPOLATION=False, DEBUG_ADW_INTERPOLATION=False,
                                                                 DEBUG_MIN_LAT=0, DEBUG_MIN_LON=0, DEBUG_MAX_LAT=0, DEBUG_MAX_LON=0))

        def gn(gid, lats, lons, mv):
            b.calls.append('grib')
            m = sint_(e, 'entries')
            e.assume(m.t >= 1)
            c = grib_columns(e, m, 1, n, 'new')
            return tuple(c)

        def gi(gid, lats, lons, mv):
            b.calls.append('grib')
            m = sint_(e, 'entries')
            e.assume(m.t >= 1)
            return tuple(grib_columns(e, m, 4, n, 'new')) + tuple(sym_array(f'newc{j}', (m,)) for j in range(4))
        self.grib = ModelModule('grib_interpolation_lib', dict(grib_nearest=gn, grib_nearest_parallel=gn, grib_invdist=gi, grib_invdist_parallel=gi))

    def install(self, L):
        L.mods['pyg2p.main.interpolation.scipy_interpolation_lib'] = self.scipy
        L.mods['pyg2p.main.interpolation.grib_interpolation_lib'] = self.grib
        return L


def iterm_(n):
    from pyvc.containers import iterm
    return iterm(n)


def grib_columns(e, m, k, n, name):
    """xs, ys, k index columns of a GRIB-API table with m entries on the target grid"""
    xs, ys = sym_array(name + 'xs', (m,), 'i8'), sym_array(name + 'ys', (m,), 'i8')
    ix = [sym_array(f'{name}i{j}', (m,), 'i8') for j in range(k)]
    p, q = z3.Ints('p!t q!t')
    inr = zand(p >= 0, p < m.t)
    rows, cols = e.state['target']
    e.assume(z3.ForAll([p], zimp(inr, zand(xs.at(p).t >= 0, xs.at(p).t < rows.t, ys.at(p).t >= 0, ys.at(p).t < cols.t)), patterns=[xs.at(p).t]))
    for a in ix:
        e.assume(z3.ForAll([p], zimp(inr, zand(a.at(p).t >= 0, a.at(p).t < n.t)), patterns=[a.at(p).t]))
    e.assume(z3.ForAll([p, q], zimp(zand(p >= 0, p < q, q < m.t), zor(xs.at(p).t != xs.at(q).t, ys.at(p).t != ys.at(q).t)), patterns=[z3.MultiPattern(xs.at(p).t, xs.at(q).t)]))
    return [xs, ys] + ix


def bounded(e, ix, k, nt, n):
    p, j = z3.Ints('p!b j!b')
    x = (ix.at(p) if k == 1 else ix.at(p, j)).t
    e.assume(z3.ForAll([p] if k == 1 else [p, j], zimp(zand(p >= 0, p < dimt(nt), *([j >= 0, j < k] if k > 1 else [])), zand(x >= 0, x <= iterm_(n))), patterns=[x]))


def some_table(e, mode, nt, n, name):
    """arbitrary stored table -> (content, value(v, cell) for scipy nearest)"""
    k = NNEAR.get(mode)
    if k:
        sh = (nt,) if k == 1 else (nt, k)
        ix, w = sym_array(name + 'idx', sh, 'i8'), sym_array(name + 'w', sh, nan=True)
        bounded(e, ix, k, nt, n)
        return RecArr({'indexes': ix, 'coeffs': w})
    m = sint_(e, name + 'm')
    e.assume(m.t >= 1)
    c = grib_columns(e, m, 1 if mode == 'grib_nearest' else 4, n, name)
    if mode == 'grib_nearest':
        return asarr(c)
    z = full((m,), 0.0)
    return RecArr({'indexes': asarr(c), 'coeffs': asarr([sym_array(f'{name}c{j}', (m,)) for j in range(4)] + [z, z])})


class World:
    """an installation: user/global folders, configuration files, target maps, arbitrary files present"""

    def __init__(self, e, mode, registered, user=True):
        self.e, self.mode = e, mode
        e.state['open'] = world.open_
        rows, cols = sint_(e, 'rows'), sint_(e, 'cols')
        e.assume(zand(rows.t >= 1, cols.t >= 1))
        e.state['target'] = (rows, cols)
        self.rows, self.cols = rows, cols
        self.mv = sreal_(e, 'mv')
        e.state['rasters'] = {LAT: Raster(sym_array('lat', (rows, cols)), self.mv, 1.0, 2.0), LON: Raster(sym_array('lon', (rows, cols)), self.mv, 1.0, 2.0)}
        self.n = sint_(e, 'n')
        e.assume(self.n.t >= 1)
        self.nt = rows * cols
        self.user = '/user' if user else None
        self.id = table_id(mode)
        self.other = VDict({'filename': 'other.npy', 'method': 'nearest', 'source_shape': VList([3]), 'target_shape': VList([1, 1])})
        uv, gv = {'otherid': self.other}, {}
        self.f = None
        if registered:
            base = SStr(e.fresh(world.S, 'name'))
            e.assume(zand(z3.Length(base.t) > 0, znot(z3.Contains(base.t, '/'))))
            e.inputs.append(('file name', base.t))
            e.state['simple'] = [base.t]
            gzname = bool(e.choose(2))
            self.f = base + ('.gz' if gzname else '.npy')
            (uv if registered == 'user' else gv)[self.id] = VDict({'filename': self.f})
        f = fs()
        for path, d in ((CONF, uv), ('configuration/global/intertables.json', gv), ('configuration/global/global_conf.json', {'intertables': '/glob', 'geopotentials': '/globgeo'})):
            t = world.term(path)
            f.content.append((t, [world.JsonText(world.deepval(VDict(d)))], 'text'))
            e.assume(f.isfile0(t))
        self.tables = {}
        if registered:
            for d in ([self.user] if user else []) + ['/glob']:
                for ext in ('',) if gzname else ('', '.gz'):
                    p = SStr.of(d + '/') + self.f + ext
                    t = some_table(e, mode, self.nt, self.n, f't{len(self.tables)}')
                    gz = gzname or ext == '.gz'
                    f.content.append((world.term(p), Stored(t), 'npy.gz' if gz else 'npy'))
                    self.tables[len(self.tables)] = (p, t)
        for p in (LAT, LON):
            e.assume(f.isfile0(world.term(p)))

    def process(self, create, **over):
        """a new process: fresh modules and configuration -> interpolator"""
        e = self.e
        L = Builders(e, self.mode, self.nt, self.n)
        L.install(ld := loader(OVER))
        self.builders = L
        cfg = ld.load('pyg2p.main.config')
        it = cfg.IntertablesConfiguration(User(**({'INTERTABLES': self.user} if self.user else {})))
        m = ld.load('pyg2p.main.interpolation')
        ip = m.Interpolator(context(self.mode, it, create=create, user=self.user, glob='/glob', **over), sreal_(e, 'mvgrib'))
        if self.mode.startswith('grib'):
            ip.aux_for_intertable_generation(7, sym_array('aux', (self.n,)), 8, sym_array('aux2', (self.n,)))
        self.exc = ld.load('pyg2p.exceptions')
        return ip

    def found(self):
        """which of the candidate files is the one to use: list of (condition, table) in order of precedence"""
        f = fs()
        out, before = [], []
        for k, (p, t) in self.tables.items():
            c = f.isfile0(world.term(p))
            out.append((zand(c, *[znot(b) for b in before]), p, t))
            before.append(c)
        return out, zand(*[znot(b) for b in before])
