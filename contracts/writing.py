"""shared by C16-C18: OutputWriter with its collaborators by contract"""
from contracts.interp import *
from pyvc.runtime import ModelModule
from pyvc.containers import ISeq, CandInv, iterm as iterm_
from pyvc.syms import SStr


class W:
    pass


def writing_world(e):
    """OutputWriter of the real code; interpolator, corrector and the file writers are stand-ins with contracts"""
    w = W()
    e.state['open'] = world.open_
    L = loader()
    w.L = L
    w.calls = []
    rows, cols = sint_(e, 'rows'), sint_(e, 'cols')
    e.assume(zand(rows.t >= 1, cols.t >= 1))
    w.rows, w.cols = rows, cols
    w.mv = sreal_(e, 'mv')
    w.kind = e.choose(3) if False else 1
    L.load('pyg2p')

    class Interpolator:
        def __init__(self, ctx, mv_input):
            self.ctx, self.mv_input = ctx, mv_input

        @property
        def mv_output(self):
            return w.mv

        def aux_for_intertable_generation(self, *a):
            pass

        def interpolate(self, lats, lons, v, grid_id, details, gid=-1, is_second_res=False):
            pos = getattr(v, 'pos', None)
            out = w.result(pos, False) if w.result else sym_array(f'out{len(w.calls)}', (rows, cols), masked=[False, True, 'nomask'][w.kind], nan=True)
            w.calls.append(dict(lats=lats, lons=lons, v=v, grid=grid_id, details=details, second=is_second_res, given=out.snap(), out=out, first=out, pos=getattr(v, 'pos', None)))
            if w.check:
                w.check(w.calls[-1])
            return out
    w.check = w.result = None

    class Corrector:
        def __init__(self, grid):
            self.grid = grid

        @classmethod
        def get_instance(cls, ctx, grid_id):
            return cls(grid_id)

        def correct(self, v):
            out = w.result(w.calls[-1]['pos'], True) if w.result else sym_array(f'corr{len(w.calls)}', (rows, cols), masked=True, nan=True)
            w.calls[-1].update(corrected=v, cgrid=self.grid, given=out.snap(), out=out)
            return out
    L.mods['pyg2p.main.interpolation'] = ModelModule('interpolation', dict(Interpolator=Interpolator))
    L.mods['pyg2p.main.manipulation.correction'] = ModelModule('correction', dict(Corrector=Corrector))
    w.mod = L.load('pyg2p.main.writers')

    class Pcr:
        def __init__(self, *a):
            pass
    L.mods['pyg2p.main.writers.pcr'] = ModelModule('pcr', dict(PCRasterWriter=Pcr))
    L.mods['pyg2p.main.writers.netcdf'] = ModelModule('netcdf', dict(NetCDFWriter=Pcr))

    def writer(correction=False, fmt='pcraster', **om):
        v = {'outMaps.format': fmt, 'outMaps.outDir': '/out', 'logger.level': 'ERROR', 'outMaps.clone': '/m/clone.map', 'interpolation.latMap': LAT, 'interpolation.lonMap': LON,
             'execution.doCorrection': correction, 'interpolation.mode': 'nearest'}
        v.update({f'outMaps.{k}': x for k, x in om.items()})
        c = Ctx(v, None)
        info = W()
        info.mv = sreal_(e, 'grib_mv')
        return w.mod.OutputWriter(c, info)
    w.writer = writer
    return w


class Field:
    """field of the k-th step (opaque to the writer)"""

    def __init__(self, pos):
        self.pos = pos


def steps(e, w, change):
    """values: any number of steps with increasing end steps; change: the first step of the second resolution"""
    P = w.L.load('pyg2p')
    n = sint_(e, 'steps')
    e.assume(n.t >= 0)
    E, S_ = core.uf('E', Z, Z), core.uf('S', Z, Z)
    c = e.fresh(Z, 'change')
    two = change != 'one resolution'
    if two:
        e.assume(zand(c >= 0, c < n.t))
    w.n, w.c, w.E = n, c, E
    seen = []

    def mk(p):
        # strictly increasing end steps: instances of the assumption for the positions that occur
        p = z3.simplify(p)
        for q in seen:
            e.axiom(('incr', p.get_id(), q.get_id()), zand((p < q) == (E(p) < E(q)), (p == q) == (E(p) == E(q))))
        seen.append(p)
        e.keep.append(p)
        return P.Step(SInt(S_(p)), SInt(E(p)), 10, 6, 0)

    class Values:
        def items(self):
            return ISeq(n.t, lambda p: (mk(p), Field(p)))

        def keys(self):
            return ISeq(n.t, mk)

        def values(self):
            return ISeq(n.t, Field)
    w.values = Values()
    w.change = mk(c) if two else None
    w.second = (lambda p: p >= c) if two else (lambda p: F)
    first = dict(lats='lats1', lons='lons1', details=object(), grid='grid1')
    second = dict(lats='lats2', lons='lons2', details=object(), grid='grid2')

    class Details:
        def get_2nd_resolution(self):
            return second['details'] if two else None
    first['details'] = Details()

    class Messages:
        grid_id = 'grid1'
        grid2_id = 'grid2'
        latlons = ('lats1', 'lons1')
        latlons_2nd = ('lats2', 'lons2') if two else (None, None)
        grid_details = first['details']
        data_date, step_units = '20190101', 'h'

        def have_resolution_change(self):
            return two
    w.messages = Messages()

    def check(call_):
        p = call_['pos']
        sec = e.branch(w.second(p)) if p is not None else False
        x = second if sec else first
        e.prove('each step is interpolated with the coordinates and grid of its own resolution',
                p is not None and all(call_[k] is x[k] or (isinstance(x[k], str) and call_[k] == x[k]) for k in x) and bool(call_['second']) == sec)
    w.check = check

    def spec(d):
        inv = {}
        pairs = [(first[k], second[k]) for k in first] + [(False, True)]
        for name, v in d.entry.items():
            for a, b in pairs:
                if v is a or (isinstance(a, str) and isinstance(v, str) and v == a):
                    # before the element at pos: second resolution once the change step has been passed
                    inv[name] = CandInv(name, [('switch', (lambda a, b: lambda d: b if two and d.pos is not d.lo and e.branch(d.pos > c) else a)(a, b))],
                                        eq=lambda x, y: T if x is y or (isinstance(x, str) and x == y) else F)
        return inv
    e.state['loop_spec'] = spec
    return n


def same_field(a, b):
    if not isinstance(a, Arr) or not isinstance(b, Arr) or len(a.shape) != len(b.shape):
        return F
    i = a.fresh_index('f')
    return zand(a.m(*i) == b.m(*i), zimp(znot(a.m(*i)), same(a.at(*i), b.at(*i))))
