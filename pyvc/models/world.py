"""Contracts assumed for the file system, gzip, json files and GDAL rasters.

State lives in e.state['fs'] (class FS): which paths are files/folders at the start is arbitrary
(uninterpreted predicates over path strings, constrained by the harness), every write is recorded.
"""
import os as _os
import json as _json
import z3
from .. import core
from ..core import Unsupported, eng, SBool, zb, zor, zand, znot, zimp, T, F, _simp
from ..syms import SStr
from ..runtime import ModelModule, Missing
from ..containers import VDict, VList, Born
from ..arr import Arr, asarr, sym_array

S = z3.StringSort()


def term(p):
    if isinstance(p, bytes):
        p = p.decode()
    return canon(SStr.of(p).t)


def canon(t):
    '''concatenations flattened, neighbouring constants merged: equal paths built differently are the same term'''
    out = []
    for x in parts(t):
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif not isinstance(x, str) or x:
            out.append(x)
    out = [z3.StringVal(x) if isinstance(x, str) else x for x in out]
    if not out:
        return z3.StringVal('')
    return out[0] if len(out) == 1 else z3.Concat(*out)


def unterm(t):
    t = _simp(t)
    return t.as_string() if z3.is_string_value(t) else SStr(t)


def parts(t):
    """flat concat parts: python str for constants, terms otherwise"""
    t = _simp(t)
    if z3.is_string_value(t):
        return [t.as_string()]
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in t.children() for p in parts(c)]
    return [t]


def digitlike(t):
    '''no slash can occur in it (and it is no . or ..)'''
    if any(t.eq(x) for x in eng().state.get('simple', ())):
        return True
    if z3.is_string_value(t):
        return '/' not in t.as_string()
    k = t.decl().kind()
    if t.decl().name() in ('int.to.str', 'str.from_int') or k == getattr(z3, 'Z3_OP_INT_TO_STR', -1):
        return True
    if k == z3.Z3_OP_ITE:
        return digitlike(t.arg(1)) and digitlike(t.arg(2))
    if k == z3.Z3_OP_SEQ_CONCAT:
        return all(digitlike(c) for c in t.children())
    return False


class FS(Born):
    absent = ('.gz.gz',)     # assumed: no file has such a name

    def __init__(self):
        self._born = 0
        self.writes = []        # (path term, content, kind) in order
        self.content = []       # (path term, content): what the files hold at the start
        self.jsons = []
        self.log = []           # every effect: (op, path term)

    # ---- predicates (before any write / now)
    def isfile0(self, t):
        t = canon(t)
        last = parts(t)[-1]
        if isinstance(last, str) and last.endswith(self.absent):
            return F
        f, d, x = [core.uf('fs.' + n, S, core.B)(t) for n in ('isfile', 'isdir', 'exists')]
        e = eng()
        e.keep += [f, d, x]
        e.axiom(('fs', t.get_id()), zand(znot(zand(f, d)), zimp(f, x), zimp(d, x)))
        return f

    def isdir0(self, t):
        self.isfile0(t)
        return core.uf('fs.isdir', S, core.B)(canon(t))

    def exists0(self, t):
        self.isfile0(t)
        return core.uf('fs.exists', S, core.B)(canon(t))

    def isfile(self, p):
        if isinstance(p, str) and p.endswith('VERSION'):
            return _os.path.isfile(p)
        t = term(p)
        return SBool(_simp(zor(self.isfile0(t), *[w[0] == t for w in self.writes])))

    def isdir(self, p):
        t = term(p)
        return SBool(_simp(zor(self.isdir0(t), *[w == t for w in [x[1] for x in self.log if x[0] == 'mkdir']])))

    def exists(self, p):
        if isinstance(p, str) and p.endswith('VERSION'):
            return _os.path.exists(p)
        t = term(p)
        return SBool(_simp(zor(self.exists0(t), zb(self.isfile(p)), zb(self.isdir(p)))))

    def access(self, p, mode):
        return SBool(core.uf(f'fs.access{int(mode)}', S, core.B)(term(p)))

    def write(self, p, content, kind):
        t = term(p)
        self.writes.append((t, content, kind))
        self.effect('write', t)

    def effect(self, *ev):
        self.log.append(ev)
        self._log()

    def read(self, p):
        """content of a file; FileNotFoundError when it is not there"""
        t = term(p)
        e = eng()
        if not e.branch(zb(self.isfile(p))):
            raise FileNotFoundError(2, 'No such file or directory')
        for w in reversed(self.writes):
            if e.branch(w[0] == t):
                return w[1], w[2]
        for c in self.content:
            if e.branch(c[0] == t):
                return c[1], c[2]
        raise Unsupported('content of a file is unknown')


def fs():
    st = eng().state
    if 'fs' not in st:
        st['fs'] = FS()
    return st['fs']


# ------------------------------------------------------------------ os
def join(a, *bs):
    r = a
    for b in bs:
        if isinstance(r, str) and isinstance(b, str):
            r = _os.path.join(r, b)
            continue
        if r is None or b is None:
            raise TypeError('expected str, bytes or os.PathLike object, not NoneType')
        b = SStr.of(b)
        r = SStr.of(r)
        pb = parts(b.t)
        if isinstance(pb[0], str):
            st = pb[0].startswith('/') if pb[0] else False
        elif digitlike(pb[0]):
            st = False
        else:
            st = bool(b.startswith('/'))
        if st:
            r = b
            continue
        pr = parts(r.t)
        if isinstance(pr[-1], str) and pr[-1]:
            en = pr[-1].endswith('/')
        elif not isinstance(pr[-1], str) and digitlike(pr[-1]):
            en = False
        else:
            en = bool(SBool(zor(zb(r.endswith('/')), z3.Length(r.t) == 0)))
        r = r + b if en else r + '/' + b
        if isinstance(r, str):
            r = r
    return r if not isinstance(r, SStr) else unterm(r.t)


def normpath(p):
    if isinstance(p, str):
        return _os.path.normpath(p)
    ps = parts(p.t)
    if all(isinstance(x, str) or digitlike(x) for x in ps):
        sub = ''.join(x if isinstance(x, str) else '7' for x in ps)
        if _os.path.normpath(sub) == sub:
            return p
    return SStr(core.uf('normpath', S, S)(p.t))


def basename(p):
    if p is None:
        raise TypeError('expected str, bytes or os.PathLike object, not NoneType')
    if isinstance(p, str):
        return _os.path.basename(p)
    ps = parts(p.t)
    out = []
    for x in reversed(ps):
        if isinstance(x, str):
            if '/' in x:
                out.append(z3.StringVal(x.rpartition('/')[2]))
                return unterm(z3.Concat(*reversed(out)) if len(out) > 1 else out[0])
            out.append(z3.StringVal(x))
        elif digitlike(x):
            out.append(x)
        else:
            return SStr(core.uf('basename', S, S)(p.t))
    return p


def dirname(p):
    if isinstance(p, str):
        return _os.path.dirname(p)
    ps = parts(p.t)
    for k in range(len(ps) - 1, -1, -1):
        x = ps[k]
        if isinstance(x, str):
            if '/' in x:
                d = x.rpartition('/')[0]
                if k == 0:
                    return d.rstrip('/') or '/'
                if d and not d.endswith('/'):
                    return unterm(z3.Concat(*[z3.StringVal(y) if isinstance(y, str) else y for y in ps[:k] + [d]]))
                break
        elif not digitlike(x):
            break
    else:
        return ''
    return SStr(core.uf('dirname', S, S)(p.t))


def makedirs(p, *a, **k):
    fs().effect('mkdir', term(p))


def unlink(p):
    fs().effect('unlink', term(p))


def _nat(f):
    def g(*a):
        if any(isinstance(x, SStr) for x in a):
            raise Unsupported(f'os.path.{f.__name__} on a symbolic string')
        return f(*a)
    return g


def listdir(p):
    h = eng().state.get('listdir')
    if h is None:
        raise Unsupported('os.listdir without a model')
    return h(p)


def make_path(l):
    return ModelModule('os.path', dict(join=join, normpath=normpath, basename=basename, dirname=dirname, exists=lambda p: fs().exists(p),
                                       isfile=lambda p: fs().isfile(p), isdir=lambda p: fs().isdir(p), splitext=_nat(_os.path.splitext),
                                       expanduser=lambda p: p.replace('~', '/home/u'), abspath=lambda p: p if isinstance(p, SStr) else _os.path.normpath(_os.path.join('/cwd', p)),
                                       split=_nat(_os.path.split), isabs=_nat(_os.path.isabs), sep='/'))


def make_os(l):
    return ModelModule('os', dict(path=l.model('os.path'), access=lambda p, m: fs().access(p, m), W_OK=_os.W_OK, R_OK=_os.R_OK, F_OK=_os.F_OK, X_OK=_os.X_OK,
                                  makedirs=makedirs, mkdir=makedirs, unlink=unlink, remove=unlink, rmdir=unlink, listdir=listdir, getcwd=lambda: '/cwd', sep='/',
                                  environ={}, cpu_count=lambda: 4, getpid=lambda: 1, linesep='\n', name='posix'))


def shcopy(src, dst):
    f = fs()
    f.effect('copy', term(src), term(dst))
    if eng().branch(zb(f.isdir(dst))):
        dst = join(dst, basename(src))
    f.write(dst, ('copy of', term(src)), 'copy')


# ------------------------------------------------------------------ files
class File:
    """an open text file"""

    def __init__(self, path, mode):
        self.path, self.mode, self.closed = path, mode, False
        self.name = path
        self.out = []
        if 'w' in mode:
            fs().write(path, self.out, 'text')
        else:
            self.content = fs().read(path)

    def write(self, s):
        if self.closed:
            raise ValueError('I/O operation on closed file.')
        self.out.append(s)

    def read(self): return self.content[0]

    def __iter__(self):
        return iter(self.content[0])

    def readlines(self):
        return VList(self.content[0])

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a):
        self.close()
        return False


def open_(path, mode='r', *a, **k):
    if isinstance(path, str) and path.endswith('VERSION'):
        return NotImplemented
    return File(path, mode)


class JsonText:
    def __init__(self, obj):
        self.obj = obj


def deepval(x):
    """value of a JSON-able structure as it is now"""
    if isinstance(x, VDict):
        r = VDict(x)
        r.ent = [(k, deepval(v)) for k, v in x.ent]
        return r
    if isinstance(x, dict):
        return VDict([(k, deepval(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return VList([deepval(v) for v in x])
    return x


def jload(f):
    c = f.content[0]
    if isinstance(c, list) and len(c) == 1 and isinstance(c[0], JsonText):
        c = c[0]
    if isinstance(c, JsonText):
        return deepval(c.obj)
    if isinstance(c, str):
        return deepval(_json.loads(c))
    raise Unsupported('json.load of unknown text')


def make_json(l):
    return ModelModule('json', dict(load=jload, dumps=lambda o, **k: JsonText(deepval(o)), dump=lambda o, f, **k: f.write(JsonText(deepval(o))),
                                    loads=lambda s: deepval(s.obj) if isinstance(s, JsonText) else deepval(_json.loads(s)), JSONDecodeError=ValueError))


class Gzip:
    def __init__(self, path, mode='r', *a, **k):
        self.path, self.mode, self.closed = path, mode, False
        if 'w' in mode:
            fs().effect('write', term(path))
        elif not eng().branch(zb(fs().isfile(path))):
            raise FileNotFoundError(2, 'No such file or directory')

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a):
        self.close()
        return False


def np_load(f, *a, **k):
    if isinstance(f, Gzip):
        if f.closed or 'w' in f.mode:
            raise ValueError('I/O operation')
        c, kind = fs().read(f.path)
        if kind != 'npy.gz':
            raise OSError('Not a gzipped file')
        return c.reload()
    c, kind = fs().read(f)
    if kind != 'npy':
        raise ValueError('This file contains pickled (object) data')
    return c.reload()


def np_save(f, a, *r, **k):
    a = a if isinstance(a, (RecArr,)) else asarr(a)
    if isinstance(f, Gzip):
        if f.closed or 'w' not in f.mode:
            raise ValueError('write to closed file')
        fs().writes.append((term(f.path), Stored(a), 'npy.gz'))
        return
    p = f
    if not bool(SStr.of(p).endswith('.npy')):
        p = SStr.of(p) + '.npy'
    fs().write(p, Stored(a), 'npy')


class Stored:
    """array as it is on disk"""

    def __init__(self, a):
        self.a = a.snap()

    def reload(self):
        return self.a.snap()


class RecArr:
    """numpy record array with named fields of one shape"""

    def __init__(self, fields):
        self.fields = fields
        sh = [a.shape for a in fields.values()]
        self.shape = sh[0]

    def snap(self):
        return RecArr({k: v.snap() if isinstance(v, Arr) else v for k, v in self.fields.items()})

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.fields:
                raise ValueError(f'no field of name {k}')
            return self.fields[k]
        raise Unsupported('record index')

    def __getattr__(self, k):
        if k.startswith('__') or k == 'fields':
            raise AttributeError(k)
        if k in self.fields:
            return self.fields[k]
        raise AttributeError(k)


def fromarrays(arrs, names=None, **k):
    from ..arr import dimeq
    arrs = [asarr(a).plain() for a in arrs]
    if isinstance(names, str):
        names = [n.strip() for n in names.split(',')]
    sh = arrs[0].shape
    for a in arrs[1:]:
        if len(a.shape) != len(sh) or not all(dimeq(x, y) for x, y in zip(a.shape, sh)):
            raise ValueError('array-shape mismatch in array 1')
    return RecArr({n: a.snap() for n, a in zip(names, arrs)})


# ------------------------------------------------------------------ gdal
class Raster:
    """one-band raster: values (rows, cols), missing value, minimum, maximum, geotransform"""

    def __init__(self, values, mv, mn=0.0, mx=1.0, geo=(5.0, 1.0, 0.0, 50.0, 0.0, -1.0)):
        self.values, self.mv, self.mn, self.mx, self.geo = values, mv, mn, mx, geo


class Band:
    def __init__(self, ds):
        self.ds = ds

    def GetMinimum(self): return self.ds.r.mn
    def GetMaximum(self): return self.ds.r.mx
    def GetNoDataValue(self): return self.ds.r.mv

    def SetNoDataValue(self, v): self.ds.r.mv = v

    def ReadAsArray(self, x=0, y=0, w=None, h=None):
        from ..arr import dimeq
        sh = self.ds.r.values.shape
        if not (x == 0 and y == 0 and (w is None or dimeq(w, sh[1])) and (h is None or dimeq(h, sh[0]))):
            raise Unsupported('partial raster read')
        return self.ds.r.values.copy()

    def WriteArray(self, a, x=0, y=0):
        from ..arr import dimeq
        if isinstance(a, Arr) and len(a.shape) == 2 and all(dimeq(p, q) for p, q in zip(a.shape, self.ds.r.values.shape)):
            self.ds.r.values = a.plain().snap()
            return 0
        raise ValueError('array larger than output file, or offset off edge')


class Dataset:
    def __init__(self, r):
        self.r = r

    @property
    def RasterXSize(self): return self.r.values.shape[1]

    @property
    def RasterYSize(self): return self.r.values.shape[0]

    def GetGeoTransform(self): return self.r.geo
    def GetRasterBand(self, n): return Band(self)


class Driver:
    def __init__(self, name):
        self.name = name

    def Register(self): return 0

    def CreateCopy(self, path, src, *a, **k):
        r = src.r
        c = Dataset(Raster(r.values.snap(), r.mv, r.mn, r.mx, r.geo))
        if self.name == 'MEM':
            return c
        if self.name != 'PCRaster':
            raise Unsupported(f'gdal driver {self.name}')
        fs().write(path.decode() if isinstance(path, bytes) else path, c.r, 'pcraster')
        return c


def gdal_open(path, *a):
    t = term(path)
    for k, r in eng().state.get('rasters', {}).items():
        if eng().branch(t == term(k)):
            return Dataset(Raster(r.values.snap(), r.mv, r.mn, r.mx, r.geo))
    return None


def make_gdal(l):
    return ModelModule('osgeo.gdal', dict(Open=gdal_open, GetDriverByName=lambda n: Driver(n), GA_ReadOnly=0, UseExceptions=lambda: None, DontUseExceptions=lambda: None,
                                          GDT_Float32=6, GDT_Float64=7))


MODELS = {
    'os': make_os, 'os.path': make_path, 'json': make_json, 'ujson': make_json,
    'gzip': lambda l: ModelModule('gzip', dict(GzipFile=Gzip, open=Gzip)),
    'shutil': lambda l: ModelModule('shutil', dict(copy=shcopy, copyfile=shcopy, copy2=shcopy)),
    'osgeo': lambda l: ModelModule('osgeo', dict(gdal=l.model('osgeo.gdal'))),
    'osgeo.gdal': make_gdal,
    'osgeo.gdalconst': lambda l: ModelModule('osgeo.gdalconst', dict(GA_ReadOnly=0)),
}
