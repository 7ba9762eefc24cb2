"""C11 contracts: tables built from the neighbours GRIB-API names."""
from contracts.scipylib import *
from pyvc.arr import rowcol
from pyvc.models.ext import _EccErr

ASSUMPTIONS = [
    'eccodes.codes_grib_find_nearest answers as a function of the message and the coordinates, with indexes of source points and distances >= 0, or raises GribInternalError',
    'dask bags keep the order of their items; worker processes know the handles of this process only when they are forks of it (cross-checked by the run-time contract)',
    'numpy.indices, array_split, apply_along_axis, concatenate by contract; array_split only for a number of parts that divides the number of cells',
    'coordinates are finite or NaN; reals instead of floats (the inverse of a distance does not overflow)',
]
FN = {1: (core.uf('nn1', R, R, Z), core.uf('nn1dist', R, R, R), core.uf('nn1out', R, R, B)),
      4: (core.uf('nn4', Z, R, R, Z), core.uf('nn4dist', Z, R, R, R), core.uf('nn4out', R, R, B))}


class Found(dict):
    pass


class Site:
    """target coordinates and answers of eccodes"""

    def __init__(self, e, masked=False):
        self.e = e
        self.rows, self.cols, self.n = sint_(e, 'rows'), sint_(e, 'cols'), sint_(e, 'n')
        e.assume(zand(self.rows.t >= 1, self.cols.t >= 1, self.n.t >= 1))
        self.mv = sreal_(e, 'mv')
        self.lat, self.lon = sym_array('tlat', (self.rows, self.cols), nan=True), sym_array('tlon', (self.rows, self.cols), nan=True)
        for a in (self.lat, self.lon):
            a.frozen = 'the target coordinates'
        self.gid = 7
        x, y = z3.Reals('x!nn y!nn')
        for j in range(4):
            i, d, o = FN[4]
            e.assume(z3.ForAll([x, y], zand(i(j, x, y) >= 0, i(j, x, y) < self.n.t), patterns=[i(j, x, y)]))
            e.assume(z3.ForAll([x, y], d(j, x, y) >= 0, patterns=[d(j, x, y)]))
        i, d, o = FN[1]
        e.assume(z3.ForAll([x, y], zand(i(x, y) >= 0, i(x, y) < self.n.t), patterns=[i(x, y)]))
        self.asked = False

    def find_nearest(self, gid, inlat, inlon, is_lsm=False, npoints=1):
        e = self.e
        if is_lsm or npoints not in (1, 4):
            raise Unsupported('find_nearest')
        if e.nested is None:
            e.prove('neighbours are asked of the message of the run', T if gid == self.gid else F)
        elif gid != self.gid:
            raise Unsupported('neighbours of another message')
        la, lo = core.toreal(lift(inlat)), core.toreal(lift(inlon))
        i, d, o = FN[npoints]
        if e.branch(o(la.t, lo.t)):
            raise self.err('The point is out of the grid area')
        a = [()] if npoints == 1 else [(z3.IntVal(j),) for j in range(4)]
        return tuple(VDict({'index': SInt(i(*p, la.t, lo.t)), 'distance': SReal(d(*p, la.t, lo.t)), 'lat': la, 'lon': lo}) for p in a)

    def load(self):
        s = self

        class Err(_EccErr):
            pass
        self.err = Err
        stub = ModelModule('eccodes', dict(codes_grib_find_nearest=self.find_nearest, GribInternalError=Err, CodesInternalError=_EccErr,
                                           OutOfAreaError=type('OutOfAreaError', (Err,), {}), codes_get_api_version=lambda *a: '2.30.0'))
        self.conf = [{}]

        class Bag:
            def __init__(self, seq):
                self.seq = seq

            def map(self, f):
                q = self.seq
                if not isinstance(q, ISeq_):
                    return Bag(VList([f(x) for x in q]))
                memo = {}

                def el(j):
                    if j.get_id() not in memo:
                        memo[j.get_id()] = (j, f(q.elem(j)))
                    return memo[j.get_id()][1]
                return Bag(ISeq_(q.n, el))

            def compute(self, scheduler=None, **k):
                e = s.e
                c = {}
                for x in s.conf:
                    c.update(x)
                ok = (scheduler or c.get('scheduler')) in ('threads', 'sync', 'synchronous', 'single-threaded') or c.get('multiprocessing.context') == 'fork'
                e.prove('workers know the message', T if ok else F)
                if isinstance(self.seq, ISeq_):
                    q = e.fresh(Z, 'chunk')
                    e.assume(zand(q >= 0, q < self.seq.n))
                    self.seq.elem(q)
                    r = VList()
                    r.pre = self.seq
                    return r
                return self.seq

        class Set:
            def __init__(self, d=None, **k):
                self.d = dict(d or {}, **{a.replace('__', '.'): b for a, b in k.items()})

            def __enter__(self):
                s.conf.append(self.d)

            def __exit__(self, *a):
                s.conf.remove(self.d)
                return False

        class Bar:
            def __init__(self, *a, **k):
                pass

            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False
        bagm = ModelModule('dask.bag', dict(from_sequence=lambda seq, partition_size=None, npartitions=None: Bag(seq)))
        confm = ModelModule('dask.config', dict(set=Set))
        over = {'eccodes': lambda l: stub, 'dask': lambda l: ModelModule('dask', dict(bag=bagm, config=confm)), 'dask.bag': lambda l: bagm, 'dask.config': lambda l: confm,
                'dask.diagnostics': lambda l: ModelModule('dask.diagnostics', dict(ProgressBar=Bar))}
        self.L = loader(over)
        return self.L.load('pyg2p.main.interpolation.grib_interpolation_lib')

    def valid(self, R_, C_):
        la, lo = self.lat.at(R_, C_), self.lon.at(R_, C_)
        big = z3.RealVal(-10 ** 10)
        return zand(znot(la.nan), znot(lo.nan), la.t > big, lo.t > big, la.t != self.mv.t, lo.t != self.mv.t)

    def coords(self, R_, C_):
        return self.lat.at(R_, C_).t, self.lon.at(R_, C_).t

    def has(self, R_, C_, k):
        return zand(self.valid(R_, C_), znot(FN[k][2](*self.coords(R_, C_))))

    def neigh(self, R_, C_, k):
        """(indexes, distances) of the neighbours of a cell"""
        c = self.coords(R_, C_)
        if k == 1:
            return [FN[1][0](*c)], [FN[1][1](*c)]
        return [FN[4][0](j, *c) for j in range(4)], [FN[4][1](j, *c) for j in range(4)]

    def exact(self, R_, C_):
        """the first neighbour without distance: (is there one, its index)"""
        ix, d = self.neigh(R_, C_, 4)
        x = ix[3]
        for j in (2, 1, 0):
            x = z3.If(d[j] == 0, ix[j], x)
        return zor(*[v == 0 for v in d]), x


from pyvc.containers import ISeq as ISeq_


def spec(S, k):
    """what the cells looked at so far hold, by kind of array: whatever its name, a candidate per role it may play"""
    def f(d):
        out = {}
        rc = rowcol(S.cols.t)
        FILL = SInt(z3.IntVal(-999999), True)

        def cell(i):
            return i if len(i) == 2 else rc(*i)

        def flat(i):
            return lin(*i, S.cols.t) if len(i) == 2 else i[0]

        has = lambda i: S.has(*cell(i), k)
        gone = lambda i: zand(S.valid(*cell(i)), FN[k][2](*S.coords(*cell(i))))

        def upto(fn, v0):
            return lambda d: Arr(v0.shape, lambda *i: ite(flat(i) < d.pos, fn(i), v0.at(*i)), v0._dt)
        for path, o in list(d.mut.items()) + [(n, v) for n, v in d.entry.items() if isinstance(v, Arr)]:
            if not isinstance(o, Arr) or len(o.shape) not in (1, 2):
                continue
            v0 = o.snap()
            cands = []
            if v0._dt == 'i8':
                cands.append(('cells out of the grid are dropped', upto(lambda i, v0=v0: ite(gone(i), FILL, v0.at(*i)), v0)))
                for j in range(k):
                    def ix(i, j=j, v0=v0):
                        t = S.neigh(*cell(i), k)[0][j]
                        if k == 4:
                            x, xi = S.exact(*cell(i))
                            t = z3.If(x, xi, t)
                        return ite(has(i), SInt(t, True), v0.at(*i))
                    cands.append((f'neighbour {j}', upto(ix, v0)))
            elif k == 4:
                for j in range(4):
                    def inv(i, j=j, v0=v0):
                        x, _ = S.exact(*cell(i))
                        dj = S.neigh(*cell(i), 4)[1][j]
                        return ite(has(i), ite(x, SReal(z3.RealVal(1 if j == 0 else 0)), ew('/', lift(1.0), SReal(dj))), v0.at(*i))
                    cands.append((f'inverse {j}', upto(inv, v0)))
            if cands:
                out[path] = ArrInv(path, cands)
        for n, v in d.entry.items():
            if isinstance(v, (int, SInt)) and not isinstance(v, bool):
                out[n] = CandInv(n, [('counts', (lambda v: lambda d: SInt(core._simp(iterm(v) + d.pos - d.lo)))(v))])
        return out
    return f


def row_lemma(e):
    """a flat index below rows * cols lies on one of the rows (row_of uses it)"""
    r, c, w, n = [e.fresh(Z, x) for x in ('r', 'c', 'cols', 'rows')]
    e.assume(zand(w >= 1, n >= 1, r >= 0, c >= 0, c < w, r * w + c < n * w))
    e.cover('pre')
    e.prove('product', zimp(r >= n, (r - n) * w >= 0))
    e.assume(zimp(r >= n, (r - n) * w >= 0))
    e.prove('row below the number of rows', r < n)


def row_of(e, S, t):
    r, c = rowcol(S.cols.t)(t)
    e.assume(zimp(zand(t >= 0, t < (S.rows * S.cols).t), r < S.rows.t))


def table(k, parallel):
    def h(e):
        S = Site(e)
        m = S.load()
        e.state['loop_spec'] = spec(S, k)
        fn = getattr(m, {1: 'grib_nearest', 4: 'grib_invdist'}[k] + ('_parallel' if parallel else ''))
        e.cover('pre')
        r, ex = call(fn, S.gid, S.lat, S.lon, S.mv)
        e.prove('building the table does not fail', ex is None, extxt(ex) + (trace(ex) if ex else ''))
        if ex is not None:
            return
        e.prove('the table has all its columns', T if len(r) == (3 if k == 1 else 10) else F)
        xs, ys, ix, co = r[0], r[1], list(r[2:2 + k]), list(r[2 + k:])
        M = dimt(xs.shape[0])
        e.prove('all columns have as many entries', zand(*[zb(c.shape[0] == xs.shape[0]) for c in [ys] + ix + co]))
        p = e.fresh(Z, 'entry')
        e.assume(zand(p >= 0, p < M))
        X, Y = xs.at(p).t, ys.at(p).t
        for sel in [s[2] for s in e.state.get('selections', [])]:
            if len(sel.srcf) == 1:
                row_of(e, S, sel.srcf[0](p))
        e.prove('an entry names a cell of the target', zand(X >= 0, X < S.rows.t, Y >= 0, Y < S.cols.t))
        e.assume(zand(X >= 0, X < S.rows.t, Y >= 0, Y < S.cols.t))
        e.prove('an entry names a cell with coordinates inside the source grid', S.has(X, Y, k))
        nx, nd = S.neigh(X, Y, k)
        if k == 1:
            e.prove('an entry names the neighbour of its cell', ix[0].at(p).t == nx[0])
        else:
            exact, exi = S.exact(X, Y)
            total = sum([1 / d for d in nd[1:]], 1 / nd[0])
            for j in range(4):
                w = co[j].at(p)
                e.prove('weights are numbers', zand(znot(w.nan), w.inf == 0))
                e.prove('an entry names the neighbours of its cell', zimp(znot(exact), ix[j].at(p).t == nx[j]))
                e.prove('an entry names source points', zand(ix[j].at(p).t >= 0, ix[j].at(p).t < S.n.t))
                e.prove('weights are proportional to the inverse distances', zimp(znot(exact), w.t * nd[j] == co[0].at(p).t * nd[0]))
                e.prove('weights are not negative', w.t >= 0)
                e.prove('on a source point only that point counts', zimp(exact, zor(ix[j].at(p).t == exi, F)))
            e.prove('weights sum to one', sum([c.at(p).t for c in co[1:]], co[0].at(p).t) == 1)
        p2 = e.fresh(Z, 'entry')
        e.assume(zand(p2 >= 0, p2 < M, p2 != p))
        for sel in [s[2] for s in e.state.get('selections', [])]:
            if len(sel.srcf) == 1:
                row_of(e, S, sel.srcf[0](p2))
        e.prove('no cell has two entries', zor(xs.at(p2).t != X, ys.at(p2).t != Y))
        R_, C_ = e.fresh(Z, 'row'), e.fresh(Z, 'col')
        e.assume(zand(R_ >= 0, R_ < S.rows.t, C_ >= 0, C_ < S.cols.t))
        c = lin(R_, C_, S.cols.t)
        e.assume(zand(c >= 0, c < (S.rows * S.cols).t))
        e.assume(S.has(R_, C_, k))
        ws = [s[2].posf(c) for s in e.state.get('selections', []) if len(s[2].srcf) == 1]
        e.prove('every cell with coordinates inside the source grid has an entry', zor(*[zand(q >= 0, q < M, xs.at(q).t == R_, ys.at(q).t == C_) for q in ws]))
        e.cover('post')
    return h


def vcs(tier):
    return [dict(name='row lemma', harness=row_lemma, covers=['pre'], budget_s=60)] + [dict(name=f'{"nearest" if k == 1 else "invdist"}[{"parallel" if par else "serial"}]', harness=table(k, par), covers=['pre', 'post'], budget_s=300) for k in (1, 4) for par in (False, True)]
