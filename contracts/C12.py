"""C12 contracts: which interpolation table is used, when one is created and what the run does to the file system."""
from contracts.tables import *

ASSUMPTIONS = [
    'the configured user and global folders are two different folders; a registered file name has no folder part',
    'os.path/os.access/gzip/json/numpy file functions: assumed contracts (pyvc/models/world.py)',
    'table builders: contracts proved under C08-C11 (shape, index range), content arbitrary',
]


def used(e, W, r, t, v, when, txt):
    """the result is what table t gives"""
    mode = W.mode
    if NNEAR.get(mode):
        k = NNEAR[mode]
        R_, C_ = r.fresh_index('cell')
        P = lin(R_, C_, dimt(W.cols))
        N = dimt(W.nt)
        e.assume(zand(P >= 0, P < N))
        ix = t['indexes']
        w = t['coeffs']
        if k == 1:
            i = ix.at(P).t
            e.prove(txt, zimp(zand(when, i < W.n.t), r.at(R_, C_).t == v.at(i).t))
            return
        tot, ok = z3.RealVal(0), T
        for j in range(k):
            tot = tot + w.at(P, j).t * v.at(ix.at(P, j).t).t
            ok = zand(ok, znot(w.at(P, j).nan), ix.at(P, j).t < W.n.t)
        e.prove(txt, zimp(zand(when, ok), r.at(R_, C_).t == tot))
        return
    P = e.fresh(Z, 'entry')
    if mode == 'grib_nearest':
        row = lambda a, j: a.at(j, P)
        e.assume(zand(P >= 0, P < dimt(t.shape[1])))
        e.prove(txt, zimp(when, r.at(row(t, 0).t, row(t, 1).t).t == v.at(row(t, 2).t).t))
        return
    ix, w = t['indexes'], t['coeffs']
    e.assume(zand(P >= 0, P < dimt(ix.shape[1])))
    tot = z3.RealVal(0)
    for j in range(4):
        tot = tot + w.at(j, P).t * v.at(ix.at(j + 2, P).t).t
    e.prove(txt, zimp(when, r.at(ix.at(0, P).t, ix.at(1, P).t).t == tot))


def harness(mode, registered, user=True):
    def h(e):
        W = World(e, mode, registered, user)
        create = bool(e.choose(2))
        ip = W.process(create)
        f = fs()
        nlog = len(f.log)
        v = sym_array('v', (W.n,))
        e.cover('pre')
        lat, lon = sym_array('slat', (W.n,)), sym_array('slon', (W.n,))
        vin = v.snap()
        r, ex = call(ip.interpolate, lat, lon, v, GRID, None)
        found, none = W.found()
        log = f.log[nlog:]
        writes = [x for x in log if x[0] == 'write']
        e.prove('nothing is deleted or copied', all(x[0] == 'write' for x in log))
        if ex is None and not log:
            # a stored table was used
            e.prove('without a stored table the run does not go on silently', znot(none))
            for c, p, t in found:
                if e.feasible(c):
                    used(e, W, r, t, vin, c, 'the table found first (user folder, then global; plain, then compressed) is the one used')
            return
        if ex is None or log:
            e.prove('an existing table is used as it is', none)
            e.prove('a table is created only when this was asked for', create)
            e.prove('a table is created only in a writable user folder', zand(zb(user), f.isdir0(world.term('/user')), zb(f.access('/user', 2))))
        if ex is not None:
            e.prove('a stored table can be used without error', none, extxt(ex))
            ae = isinstance(ex, W.exc.ApplicationException)
            e.prove('errors are application errors', ae, extxt(ex))
            if ae:
                want = zor(zand(znot(zb(create)), zb(ex.code == W.exc.NO_INTERTABLE_CREATED)),
                           zand(zb(create), zb(ex.code in (W.exc.NO_VAR_DEFINED, W.exc.NOT_EXISTING_PATH, W.exc.NO_WRITE_PERMISSIONS))))
                e.prove('the error says why no table could be used', want, extxt(ex))
                e.prove('with permission and request the table is created', zor(zb(not create), zb(not user), znot(f.isdir0(world.term('/user'))), znot(zb(f.access('/user', 2)))), extxt(ex))
            e.prove('a run that stops leaves the file system alone', len(log) == 0)
            return
        tb = [x for x in writes if not x[1].eq(world.term(CONF))]
        e.prove('exactly one table file is written', len(tb) == 1)
        for x in tb:
            e.prove('no existing file is overwritten', znot(f.isfile0(x[1])))
            e.prove('the table goes to the user folder', z3.PrefixOf('/user/', x[1]))
        cw = [w for w in f.writes if w[0].eq(world.term(CONF))]
        e.prove('the new table is registered', len(cw) >= 1)
        if cw and tb:
            js = cw[-1][1]
            d = js[0].obj if len(js) == 1 and isinstance(js[0], world.JsonText) else {}
            e.prove('the new table is registered under its own id', W.id in d)
            if W.id in d:
                fn = SStr.of(d[W.id]['filename']).t
                e.prove('the registered name is that of the file written', tb[0][1] == z3.Concat(z3.StringVal('/user/'), fn))
            e.prove('other registered tables are kept', 'otherid' in d and d['otherid']['filename'] == 'other.npy')
    return h


def vcs(tier):
    out = []
    for mode in ('nearest', 'invdist', 'grib_nearest', 'grib_invdist'):
        for reg in (None, 'user', 'global'):
            for user in (True, False):
                out.append(dict(name=f'{mode}[{"registered " + reg if reg else "new"}{"" if user else ", no user folder"}]', harness=harness(mode, reg, user)))
    return out
