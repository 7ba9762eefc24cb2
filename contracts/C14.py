"""C14 contracts: GRIBReader._find, scan_grib, _get_gids, select_messages and Context.create_select_cmd_for_reader."""
from contracts.grb import *
from pyvc.containers import NoBranch
from pyvc.core import Restart, _simp

ASSUMPTIONS = [
    'eccodes by contract: codes_get returns the value of a defined key, an index delivers the messages with the selected key values in file order and then None, '
    'a file delivers its messages in order and then None',
    'the messages selected together are distinct in start step, end step, size along the meridian and level; there are at most two grids',
    'GribGridDetails and Messages are stand-ins (they keep what they are given)',
]
ALWAYS = ('shortName', 'startStep', 'endStep', 'Nj', 'level', 'units', 'stepType', 'stepUnits', 'levelType', 'missingValue', 'dataDate', 'dataTime', 'bitmapPresent')
KINDS = ('int', 'list', 'tuple', 'cond', 'str', 'names')


def criterion(e, key, kind):
    """(argument, what it means for the message at t)"""
    x = lambda: sint_(e, 'wanted')
    if kind == 'int':
        a = x()
        return a, lambda t: kval(t, key).t == a.t
    if kind in ('list', 'tuple'):
        a = [x() for _ in range(e.choose(3))] or [x()]
        return (VList(a) if kind == 'list' else tuple(a)), lambda t: zor(*[kval(t, key).t == b.t for b in a])
    if kind == 'cond':
        f = e.fresh_fn('condition', Z, B)
        return (lambda s: SBool(f(iterm(s)))), lambda t: f(kval(t, key).t)
    if kind == 'str':
        a = SStr(e.fresh(world.S, 'wantedname'))
        return a, lambda t: kval(t, key).t == a.t
    a = [SStr(e.fresh(world.S, 'wantedname')) for _ in range(1 + e.choose(3))]
    return VList(a), lambda t: zor(*[kval(t, key).t == b.t for b in a])


def find(keys):
    """_find: exactly the messages that define every key and satisfy every criterion"""
    def h(e):
        lib = grb_world(e)
        t = e.fresh(Z, 'message')
        kw, want = {}, []
        for key, kinds in keys:
            kind = kinds[e.choose(len(kinds))]
            kw[key], w = criterion(e, key, kind)
            want += [kdef(t, key), w(t)]
        e.cover('pre')
        r, ex = call(lib.m.GRIBReader._find, Gid(t), **kw)
        e.prove('matching a message does not fail', ex is None, extxt(ex))
        if ex is None:
            e.prove('a message matches exactly when it defines every key and satisfies every criterion', truth(r) == zand(*want))
    return h


class Scan:
    """contract of a loop that takes messages one after the other: like a loop over the messages that the source delivers"""

    def __init__(self, st, driver):
        self.st, self.d = st, driver
        self.phase = 0
        self.e = eng()

    def take(self, src):
        if self.phase != 1 or self.taken:
            raise Unsupported('messages taken twice in an iteration')
        self.taken = True
        if isinstance(src, File):
            self.e.prove('the file is read from its beginning', self.at0)
            self.guard = lambda t: T
        else:
            if src is not self.st.lib.index:
                raise Unsupported('another index')
            sel = dict(src.sel)
            self.e.prove('the index is iterated from its beginning', src.fresh)

            def guard(t):
                r = []
                for k, v in sel.items():
                    q = kval(t, k)
                    if isinstance(q, SStr):
                        r.append(q.t == SStr.of(v).t)
                    else:
                        r.append(zand(kdef(t, k), q.t == iterm(v)))
                return zand(*r)
            self.guard = guard
        if self.exit:
            if isinstance(src, File):
                src.at0 = False
            else:
                src.fresh = False
            self.st.done.append(self.guard)
            return None
        self.e.assume(self.guard(self.pos))
        if not self.e.feasible(T):
            raise PathEnd()
        return Gid(self.pos)

    def step(self, d, loc):
        e = self.e
        if self.phase == 1:
            # end of an iteration
            tail = list.__getitem__(self.lst, slice(None))
            if not self.taken:
                raise Unsupported('iteration without a message')
            p = self.pos
            m = self.st.match(p)
            if len(tail) == 0:
                e.prove('a matching message is kept', znot(m))
            elif len(tail) == 1 and isinstance(tail[0], Gid):
                e.prove('the message kept is the one read, and it matches', zand(m, tail[0].t == p))
                e.prove('a kept message is not released', all(znot_same(x, p) for x in self.st.lib.released[self.rel:]))
                e.cover('kept')
            else:
                e.prove('at most one message is kept per message read', False)
            raise PathEnd()
        ls = [v for k, v in loc.items() if isinstance(v, VList) and not k.startswith('__vc') and (v.pre is None or getattr(v.pre, 'parts', None) is not None)
              and v is not self.st.names and all(isinstance(x, Gid) for x in list.__iter__(v))]
        if len(ls) != 1:
            raise Unsupported('loop over messages without a single result list')
        self.lst = ls[0]
        parts = list(self.lst.pre.parts) if self.lst.pre is not None else []
        if list.__len__(self.lst):
            raise Unsupported('explicit messages before the loop')
        fh = [f for f in self.st.files()]
        self.at0 = all(f.at0 for f in fh)
        self.exit = e.choose(2) == 1
        self.pos = e.fresh(Z, 'pos')
        e.assume(zand(self.pos >= 0, self.pos < self.st.lib.n))
        if not self.exit and not e.feasible(T):
            raise PathEnd()
        self.taken, self.phase = False, 1
        self.rel = len(self.st.lib.released)
        q = ISeq(e.fresh(Z, 'kept'), lambda j: Gid(core.uf('scan_at', Z, Z)(j)))
        e.assume(q.n >= 0)
        q.parts = parts + [self]
        self.lst.pre = q
        return True


def znot_same(x, p):
    return not (isinstance(x, Gid) and x.t.eq(p))


class ScanState:
    def __init__(self, lib, match):
        self.lib, self.match = lib, match
        self.done = []
        self.names = None

    def files(self):
        return [v for v in self.lib.r.__dict__.values() if isinstance(v, File)]


def scan(mode, nnames):
    """scan_grib: for every name in the order given, all messages of that name that match, in file order (file scan: all that match)"""
    def h(e):
        pert = mode == 'index with members'
        lib = grb_world(e, always=('shortName',), cannot_index=mode == 'file', pert=pert)
        names = [SStr(e.fresh(world.S, f'name{k}')) for k in range(nnames)]
        kw = {'shortName': VList(names) if nnames > 1 or e.choose(2) else names[0]}
        st_f = e.fresh_fn('condition', Z, B)
        kw['startStep'] = lambda s: SBool(st_f(iterm(s)))
        lv = sint_(e, 'level')
        kw['level'] = lv
        if pert or (mode == 'file' and e.choose(2)):
            kw['perturbationNumber'] = sint_(e, 'member')
            # the number of no selection
            e.assume(kw['perturbationNumber'].t >= 0)

        def match(t):
            c = [zor(*[kval(t, 'shortName').t == x.t for x in names]), kdef(t, 'startStep'), st_f(kval(t, 'startStep').t), kdef(t, 'level'), kval(t, 'level').t == lv.t]
            if 'perturbationNumber' in kw:
                c += [kdef(t, 'perturbationNumber'), kval(t, 'perturbationNumber').t == kw['perturbationNumber'].t]
            return zand(*c)
        st = ScanState(lib, match)
        st.names = kw['shortName'] if nnames > 1 else None

        def ws(d):
            s = Scan(st, d)
            lib.it = s
            return s
        e.state['while_spec'] = ws
        e.cover('pre')
        for again in range(2):
            n0 = len(st.done)
            r, ex = call(lib.r.scan_grib, **kw)
            e.prove('scanning does not fail', ex is None, extxt(ex))
            if ex is not None:
                return
            ok = isinstance(r, VList) and not list.__len__(r) and r.pre is not None and hasattr(r.pre, 'parts')
            e.prove('the result is the list of the messages kept', ok)
            if not ok:
                return
            guards = [p.guard for p in r.pre.parts]
            if again == 1:
                e.cover('post')
            t = e.fresh(Z, 'any')
            if mode == 'file':
                e.prove('one pass over the file', len(guards) == 1)
            else:
                e.prove('one pass over the index for each name', len(guards) == nnames)
            if len(guards) == (1 if mode == 'file' else nnames):
                for k, g in enumerate(guards):
                    if mode != 'file':
                        e.prove(f'pass {k}: the messages of the {k}-th name', zimp(match(t), g(t) == (kval(t, 'shortName').t == names[k].t)))
            if again == 0 and e.choose(2) == 0:
                return
    return h


def get_gids(kind):
    """_get_gids: the messages found; without any, a lower bound on the start step that excludes 0 is dropped"""
    def h(e):
        lib = grb_world(e)
        f = e.fresh_fn('condition', Z, B)
        lv = sint_(e, 'level')
        kw = {'shortName': VList(['tp', 'TP', 'tpvar']), 'level': lv}
        if kind == 'condition':
            kw['startStep'] = lambda s: SBool(f(iterm(s)))
        elif kind == 'value':
            kw['startStep'] = sint_(e, 'start')
        calls = []

        def scan_grib(**k):
            q = ISeq(e.fresh(Z, 'found'), lambda j: Gid(j))
            e.assume(q.n >= 0)
            v = VList()
            v.pre = q
            calls.append((dict(k), v))
            return v
        lib.r.scan_grib = scan_grib
        e.cover('pre')
        r, ex = call(lib.r._get_gids, **kw)
        e.prove('looking up messages does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.prove('the given criteria are looked up first', len(calls) >= 1 and same_kw(calls[0][0], kw))
        if not calls:
            return
        n0 = calls[0][1].pre.n
        again = zand(n0 == 0, znot(f(z3.IntVal(0)))) if kind == 'condition' else F
        e.prove('looked up again exactly when nothing was found and the condition excludes step 0', again if len(calls) == 2 else zand(znot(again), T if len(calls) == 1 else F))
        e.prove('what was found last is returned', r is calls[-1][1])
        if len(calls) == 2:
            k2 = calls[1][0]
            s = sint_(e, 's')
            e.prove('only the condition on the start step changes', same_kw({k: v for k, v in k2.items() if k != 'startStep'}, {k: v for k, v in kw.items() if k != 'startStep'}))
            c = k2.get('startStep')
            e.prove('every start step is accepted', zimp(s.t >= 0, truth(c(s))) if callable(c) else F)
            e.cover('again')
    return h


def same_kw(a, b):
    return set(a) == set(b) and all(a[k] is b[k] for k in a)


# ------------------------------------------------------------------ select_messages
class MsgInv(Inv):
    """map of messages: exactly the messages of one grid before the position, each under its key with its field"""

    def __init__(self, w, name):
        self.w, self.name = w, name

    def belongs(self, t):
        c = self.w.is_main(t)
        return c if self.main else znot(c)

    def entry(self, d, v):
        # which of the two maps it is: the first one is tried as the main one
        self.main = (self.name, 'main') not in d.info['dropped']
        eng().prove('the map of messages is empty before the first message', not v.ent and v.base is None)

    def havoc(self, d, v):
        p, lo, w = d.pos, d.lo, self.w
        v.ent = []
        v.base = (lambda t: zand(t >= lo, t < p, self.belongs(t)), lambda t: w.field(t))
        v.keyfn = lambda t: w.key(t)
        v.unkey = w.unkey(p)
        v.msginv = self
        self.end = p

    def check(self, d, v):
        e, w = eng(), self.w
        p = d.pos_prev
        if self.main and not e.known(w.is_main(p) if v.ent else znot(w.is_main(p))):
            d.info['dropped'].add((self.name, 'main'))
            raise Restart()
        n = 'main grid' if self.main else 'second grid'
        if not v.ent:
            e.prove(f'{n}: a message of this grid is added', znot(self.belongs(p)))
            return
        ok = len(v.ent) == 1
        e.prove(f'{n}: a message is added once', ok)
        if not ok:
            return
        k, x = v.ent[0]
        e.prove(f'{n}: only messages of this grid', self.belongs(p))
        names = ('start_step', 'end_step', 'resolution', 'input_step', 'level')
        kk = w.key(p)
        e.prove(f'{n}: keyed by its own start step, end step, size, time resolution and level', zand(*[zb(getattr(k, a) == getattr(kk, a)) for a in names]) if type(k).__name__ == 'Step' else F)
        good = isinstance(x, Arr) and len(x.shape) == 1
        e.prove(f'{n}: the field is a field', good)
        if good:
            i = e.fresh(Z, 'cell')
            rng = zand(i >= 0, i < size(p))
            e.prove(f'{n}: all the values of the message', zand(zb(x.shape[0] == sint(size(p))), zimp(rng, same(x.at(i), value(p).at(i)))))
            e.prove(f'{n}: missing exactly where the bitmap says', zimp(rng, zb(x.m(i)) == missing(p, i)))
        e.cover(n)


class LastInv(Inv):
    """None until the first message of another size, afterwards one of them (the message or its grid)"""

    def __init__(self, w, name):
        self.w, self.name = w, name

    def entry(self, d, v):
        eng().prove('no second grid before the first message', v is None)

    def kind(self, d):
        for k in ('grid', 'message'):
            if (self.name, k) not in d.info['dropped']:
                return k
        raise Unsupported(f'{self.name} in a loop over messages')

    def havoc(self, d, v):
        e, w = eng(), self.w
        if e.branch(w.none(d.pos)):
            return None
        q = e.fresh(Z, 'second')
        e.assume(zand(q >= 0, q < d.pos, znot(w.is_main(q))))
        return w.Grid(Gid(q)) if self.kind(d) == 'grid' else Gid(q)

    def check(self, d, v):
        e, w = eng(), self.w
        p = d.pos_prev
        if v is None:
            e.prove('the second grid is noticed', w.none(p + 1))
            return
        if not isinstance(v, w.Grid if self.kind(d) == 'grid' else Gid):
            d.info['dropped'].add((self.name, self.kind(d)))
            raise Restart()
        t = v.gid.t if isinstance(v, w.Grid) else v.t
        e.prove('the second grid is that of a message of another size', zand(t >= 0, t <= p, znot(w.is_main(t))))


class Label:
    """some position of the change of time resolution: it is compared with 'start-end' of messages, and nothing else is known of it"""
    __vc_label__ = __vc_sym__ = True

    def __eq__(self, o):
        d = core.uf('dec', Z, world.S)
        if isinstance(o, SStr) and z3.is_app(o.t) and o.t.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
            c = o.t.children()
            while c and z3.is_app(c[-1]) and c[-1].decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                c = c[:-1] + c[-1].children()
            if len(c) == 3 and z3.is_string_value(c[1]) and c[1].as_string() == '-' and all(x.decl().eq(d) for x in (c[0], c[2])):
                return SBool(core.uf('is_change', Z, Z, B)(c[0].arg(0), c[2].arg(0)))
        raise Unsupported('comparison with the position of the change of time resolution')

    def __ne__(self, o):
        return SBool(znot((self == o).t))
    __hash__ = object.__hash__


class SelWorld:
    def __init__(self, e, lib):
        self.e, self.lib = e, lib
        self.P = lib.L.load('pyg2p')
        self.change = Label()
        e.state['int_str'] = lambda t: core.uf('dec', Z, world.S)(t)
        self.s1, self.s2 = sint_(e, 'step1'), sint_(e, 'step2')
        self.hitf = e.fresh_fn('changed', Z, B)
        self.nj0 = kval(z3.IntVal(0), 'Nj').t
        self.cache = {}
        self.pos = []

    def is_main(self, t):
        return kval(t, 'Nj').t == self.nj0

    def hit(self, t):
        """the change of time resolution is at or before t"""
        e = self.e
        m = lambda q: core.uf('is_change', Z, Z, B)(kval(q, 'startStep').t, kval(q, 'endStep').t)
        t = _simp(t)
        e.axiom(('hit', t.get_id()), zand(znot(self.hitf(z3.IntVal(-1))), self.hitf(t) == zor(self.hitf(t - 1), m(t)), self.hitf(t + 1) == zor(self.hitf(t), m(t + 1))))
        e.keep.append(t)
        return self.hitf(t)

    def instep(self, t):
        return SInt(z3.If(self.hit(t), self.s2.t, self.s1.t))

    def key(self, t):
        return self.P.Step(kval(t, 'startStep'), kval(t, 'endStep'), kval(t, 'Nj'), self.instep(t), kval(t, 'level'))

    def none(self, p):
        """no message of another size before p"""
        e = eng()
        p = _simp(p)
        f, wit = core.uf('none_before', Z, B), core.uf('some_before', Z, Z)
        j = z3.Int('j!none')
        q = wit(p)
        e.axiom(('none', p.get_id()), zand(zimp(f(p), z3.ForAll([j], zimp(zand(j >= 0, j < p), self.is_main(j)))), zimp(znot(f(p)), zand(q >= 0, q < p, znot(self.is_main(q))))))
        e.keep.append(p)
        return f(p)

    def unkey(self, pos):
        def f(k):
            # the messages are distinct: none before the position has the key of the message at the position
            if type(k).__name__ != 'Step':
                return F, z3.IntVal(0)
            e = self.e
            if e.known(zand(*[zb(kval(pos, a) == b) for a, b in (('startStep', k.start_step), ('endStep', k.end_step), ('Nj', k.resolution), ('level', k.level))])):
                return F, z3.IntVal(0)
            raise Unsupported('lookup of a message by another key')
        return f

    def field(self, t):
        t = _simp(t)
        if t.get_id() not in self.cache:
            v = value(t)
            self.cache[t.get_id()] = (t, Arr(v.shape, v._fn, 'f8', lambda i: missing(t, i)))
        return self.cache[t.get_id()][1]


def select(empty=False):
    def h(e):
        lib = grb_world(e, always=ALWAYS)
        w = SelWorld(e, lib)
        n = e.fresh(Z, 'selected')
        e.assume(n == 0 if empty else n >= 1)
        seq = ISeq(n, lambda t: Gid(t))
        asked = []

        def gids(**k):
            asked.append(k)
            v = VList()
            v.pre = seq
            return v
        lib.r._get_gids = gids

        class Grid:
            def __init__(self, gid):
                self.gid = gid
                self.second, self.at = None, None

            @property
            def num_points_along_meridian(self):
                return kval(self.gid.t, 'Nj')

            def get_2nd_resolution(self):
                return self.second

            def set_2nd_resolution(self, g, at):
                self.second, self.at = g, at

        class Messages:
            def __init__(self, values, mv, unit, type_of_level, type_of_step, step_units, grid_details, val_2nd=None, data_date=None, data_time='0000'):
                self.__dict__.update(locals())
        lib.m.GribGridDetails, lib.m.Messages = Grid, Messages
        lib.r._step_grib, lib.r._step_grib2, lib.r._change_step_at = w.s1, w.s2, w.change

        w.Grid = Grid

        def spec(d):
            inv = {}
            for name, v in {**d.entry, **d.mut}.items():
                if isinstance(v, VDict):
                    inv[name] = MsgInv(w, name)
                elif isinstance(v, SInt):
                    inv[name] = CandInv(name, [('input step', lambda d: SInt(z3.If(w.hit(d.pos - 1), w.s2.t, w.s1.t))), ('same', lambda d, v=v: v)], eq=lambda a, b: zb(a == b))
                elif v is None:
                    inv[name] = LastInv(w, name)
            return inv
        e.state['loop_spec'] = spec

        def least(op, coll, key):
            """contract of min / max over the keys of a symbolic map, with the order of the code"""
            if op != 'min':
                raise Unsupported('max of messages')
            m = e.fresh(Z, 'least')
            j = e.fresh(Z, 'j')
            kf = key or (lambda x: x)
            with NoBranch():
                lt = truth(kf(coll.elem(j)) < kf(coll.elem(m)))
            q = z3.Int('q!least')
            if e.branch(z3.ForAll([q], znot(z3.substitute(coll.guard(j), (j, q))))):
                raise ValueError('min() arg is an empty sequence')
            e.assume(coll.guard(m))
            e.assume(z3.ForAll([q], z3.substitute(zimp(coll.guard(j), znot(lt)), (j, q))))
            w.minpos = m
            return coll.elem(m)
        e.state['minmax_coll'] = least
        sel = {'shortName': 'tp'}
        e.cover('pre')
        r, ex = call(lib.r.select_messages, **sel)
        if empty:
            exc = lib.L.load('pyg2p.exceptions')
            e.prove('without a message: the error for no messages', isinstance(ex, exc.ApplicationException) and ex.code == exc.NO_MESSAGES, extxt(ex))
            return
        e.prove('selecting does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        e.prove('the criteria given are looked up', len(asked) == 1 and same_kw(asked[0], sel))
        t = e.fresh(Z, 'any')
        for mp, main, name in ((r.values, True, 'main grid'), (r.val_2nd, False, 'second grid')):
            ok = isinstance(mp, VDict) and not mp.ent and getattr(mp, 'msginv', None) is not None and mp.msginv.main == main
            e.prove(f'{name}: the map built message by message', ok)
            if ok:
                e.prove(f'{name}: all selected messages of the grid and no other', mp.base[0](t) == zand(t >= 0, t < n, mp.msginv.belongs(t)))
        z = z3.IntVal(0)
        one = e.branch(n == 1)
        u = z if one else z3.IntVal(1)
        e.prove('unit and kind of step are those of the second message, or of the only one', zand(zb(r.unit == kval(u, 'units')), zb(r.type_of_step == kval(u, 'stepType'))))
        e.prove('date of the first message', zb(r.data_date == kval(z, 'dataDate')))
        e.prove('grid of the first message', isinstance(r.grid_details, Grid) and e.known(r.grid_details.gid.t == 0))
        g2 = r.grid_details.second
        anysecond = zand(t >= 0, t < n, znot(w.is_main(t)))
        if g2 is None:
            e.prove('one resolution: every message is of the grid of the first', znot(anysecond))
        else:
            e.prove('two resolutions: the second grid is the one of a message of another size', zand(znot(w.is_main(g2.gid.t)), g2.gid.t >= 0, g2.gid.t < n))
            at = r.grid_details.at
            e.prove('the second resolution begins at its message with the smallest start step', zimp(anysecond, zb(at.start_step <= kval(t, 'startStep'))) if type(at).__name__ == 'Step' else F)
            e.prove('the second resolution begins at one of its messages', zand(znot(w.is_main(w.minpos)), w.minpos >= 0, w.minpos < n) if hasattr(w, 'minpos') else F)
            e.cover('two')
        e.cover('post')

    return h


def tables():
    return [dict(name=f'select_messages[{n}]', harness=select(x), covers=c) for n, x, c in (('any', False, ['pre', 'post', 'two', 'main grid', 'second grid']), ('none', True, []))]


# ------------------------------------------------------------------ the criteria of a run
def criteria(e):
    """create_select_cmd_for_reader: the criteria say exactly what the options say"""
    L = loader()
    L.load('pyg2p')
    C = L.load('pyg2p.main.context')
    c = object.__new__(C.Context)
    name = SStr(e.fresh(world.S, 'short'))
    lv, tm, dt, pn = (sint_(e, n) if e.choose(2) else None for n in ('level', 'time', 'date', 'member'))
    e.assume(zand(*[x.t >= 0 for x in (lv, tm, dt, pn) if x is not None]))
    vs = {'parameter.shortName': name, 'parameter.level': lv, 'parameter.dataTime': tm, 'parameter.dataDate': dt, 'parameter.perturbationNumber': pn}
    object.__setattr__(c, '_vars', VDict(vs))
    s0, s1 = sint_(e, 'first'), sint_(e, 'last')
    if not hasattr(C.Context, '_vars') and '_vars' not in c.__dict__:
        raise Unsupported('Context has no variables')
    e.cover('pre')
    r, ex = call(c.create_select_cmd_for_reader, s0, s1)
    e.prove('the criteria are built', ex is None, extxt(ex))
    if ex is not None:
        return
    g = {k: v for k, v in r.ent} if isinstance(r, VDict) else dict(r)
    n = g.get('shortName')
    ok = isinstance(n, (list, tuple)) and len(n) == 3
    e.prove('three spellings of the short name', ok)
    if ok:
        e.prove('the short name, in capitals, and with the ending var', zand(*[zb(SStr.of(a) == b) for a, b in zip(n, (name, name.upper(), name + 'var'))]))
    for k, x in (('level', lv), ('dataTime', tm), ('dataDate', dt), ('perturbationNumber', pn)):
        if x is None:
            e.prove(f'{k}: not asked for', k not in g)
        else:
            e.prove(f'{k}: the value asked for', zb(g[k] == x) if isinstance(g.get(k), (int, SInt)) else F)
    x = sint_(e, 'x')
    for k, b, side in (('startStep', s0, '>='), ('endStep', s1, '<=')):
        v = g.get(k)
        single = s0.t == s1.t
        inr = x.t >= b.t if side == '>=' else x.t <= b.t
        if callable(v):
            q = v(x)
            e.prove(f'{k}: exactly the requested range', zand(znot(single), truth(q) == inr))
        elif isinstance(v, (int, SInt)):
            e.prove(f'{k}: exactly the requested step', zand(single, zb(v == b)))
        else:
            e.prove(f'{k}: asked for', F)
    e.prove('nothing else is asked for', set(g) <= {'shortName', 'level', 'dataTime', 'dataDate', 'perturbationNumber', 'startStep', 'endStep'})
    e.cover('post')


def vcs(tier):
    out = [dict(name=f'_find[{n}]', harness=find(k), covers=['pre']) for n, k in (
        ('one key', [('level', KINDS[:4])]), ('name', [('shortName', KINDS[4:])]), ('two keys', [('shortName', KINDS[4:]), ('endStep', KINDS[:4])]),
        ('three keys', [('shortName', ('names',)), ('level', ('int', 'cond')), ('startStep', ('int', 'cond'))]),
        ('all options', [('shortName', ('names',)), ('level', ('int',)), ('dataTime', ('int',)), ('dataDate', ('int',)), ('perturbationNumber', ('int',)), ('endStep', ('cond',)), ('startStep', ('cond',))]))]
    out += [dict(name=f'scan_grib[{m}, {k} names]', harness=scan(m, k), covers=['pre', 'post', 'kept']) for m in ('index', 'index with members', 'file') for k in (1, 2, 3)]
    out += [dict(name=f'_get_gids[{k}]', harness=get_gids(k), covers=['pre'] + (['again'] if k == 'condition' else [])) for k in ('condition', 'value', 'none')]
    out += tables()
    out += [dict(name='create_select_cmd_for_reader', harness=criteria, covers=['pre', 'post'])]
    return out
