"""C23 contracts: GeopotentialsConfiguration (construction, add, remove, get_filepath) and GRIBReader.get_id.

Every operation is checked on a configuration freshly loaded from arbitrary registries; its postcondition includes that memory and registry file agree as they do after loading, so
histories of operations follow by induction.
"""
from contracts.tables import *

ASSUMPTIONS = [
    'the user registry and the global registry have up to two entries together, for loading and removing up to two each (any ids and file names); file names have no folder part and differ from the description; names in one user registry are different',
    'os.path, shutil.copy, json by contract (pyvc/models/world.py); the id of a file is what the GRIB reader finds in it (C14)',
]
REG = HOME + 'geopotentials.json'
SHORT = ['fis', 'z', 'FIS', 'orog']


def simple(e, name):
    t = e.fresh(world.S, name)
    e.assume(zand(z3.Length(t) > 0, znot(z3.Contains(t, '/'))))
    e.inputs.append((name, t))
    e.state.setdefault('simple', []).append(t)
    return SStr(t)


def gid(e, name):
    t = e.fresh(world.S, name)
    e.assume(zand(z3.Length(t) > 0, t != 'description'))
    e.inputs.append((name, t))
    return SStr(t)


class Case:
    def __init__(self, e, nu=None, ng=None, folder=None, file=True):
        self.e = e
        e.state['open'] = world.open_
        self.folder = ('/geo', '/geo/', None)[e.choose(3)] if folder is None else folder or None
        if folder is not None and nu is None and ng is None:
            nu, ng = ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2))[e.choose(6)]
        nu = e.choose(3) if nu is None else nu
        ng = e.choose(3) if ng is None else ng
        self.user = [(gid(e, f'user id {k}'), simple(e, f'user name {k}')) for k in range(nu)]
        self.glob = [(gid(e, f'global id {k}'), simple(e, f'global name {k}')) for k in range(ng)]
        for l in (self.user, self.glob):
            if len(l) == 2:
                e.assume(l[0][0].t != l[1][0].t)
        if nu == 2:
            e.assume(self.user[0][1].t != self.user[1][1].t)
        f = fs()
        ld = loader(OVER)
        self.L = ld
        ld.load('pyg2p')
        self.cfg = cfg = ld.load('pyg2p.main.config')
        self.descr = cfg.GeopotentialsConfiguration.description
        for _, n in self.user + self.glob:
            e.assume(n.t != SStr.of(self.descr).t)
        for path, d in ((REG, VDict([('description', self.descr)] + self.user)), ('configuration/global/geopotentials.json', VDict(self.glob)),
                        ('configuration/global/global_conf.json', VDict({'intertables': '/glob', 'geopotentials': '/globgeo'}))):
            t = world.term(path)
            f.content.append((t, [world.JsonText(world.deepval(d))], 'text'))
            if path != REG or file:
                e.assume(f.isfile0(t))
        if not file:
            e.assume(znot(f.isfile0(world.term(REG))))
        self.exc = ld.load('pyg2p.exceptions')
        self.asked = []
        case = self

        class Reader:
            @staticmethod
            def get_id(path, reader_args=None, **k):
                case.asked.append((path, reader_args))
                if case.bad:
                    raise case.exc.ApplicationException.get_exc(case.exc.NO_MESSAGES, details='')
                return case.id

            def __getattr__(self, n):
                raise Unsupported(f'no contract for GRIBReader.{n}')
        cfg.GRIBReader = Reader
        self.bad = False
        self.id = gid(e, 'id of the file')
        self.c = cfg.GeopotentialsConfiguration(User(**({'GEOPOTENTIALS': self.folder, 'INTERTABLES': '/it'} if self.folder else {'INTERTABLES': '/it'})))
        self.nlog, self.nw = len(f.log), len(f.writes)

    def known(self):
        return self.user + [(i, n) for i, n in self.glob]

    def lookup(self, q, regs=None):
        """the name registered under q: user entries before global ones"""
        for i, n in (self.known() if regs is None else regs):
            if self.e.branch(q.t == i.t):
                return n
        return None

    def agree(self, user, wrote):
        """memory is what loading the registries gives; the registry file has the user's entries"""
        e = self.e
        q = gid(e, 'any id')
        want = self.lookup(q, user + self.glob)
        for nm, d, regs in (('registry in use', self.c.vars, user + self.glob), ('registry of the user', self.c.user_vars, user)):
            w = self.lookup(q, regs)
            g = d.get(q)
            e.prove(f'{nm}: every id has the entry it should have', T if g is None and w is None else F if g is None or w is None else SStr.of(g).t == SStr.of(w).t, f'{g!r} instead of {w!r}')
        w = [x for x in fs().writes[self.nw:] if x[0].eq(world.term(REG))]
        if not wrote:
            e.prove('the registry file is left alone', not w)
            return
        e.prove('the registry file is written', len(w) >= 1)
        if w:
            js = w[-1][1]
            d = js[0].obj if len(js) == 1 and isinstance(js[0], world.JsonText) else None
            e.prove('the registry file holds JSON', d is not None)
            if d is not None:
                w, g = self.lookup(q, user), d.get(q)
                e.prove('registry file: every id has the entry it should have', T if g is None and w is None else F if g is None or w is None else SStr.of(g).t == SStr.of(w).t, f'{g!r} instead of {w!r}')
                e.prove('registry file: nothing but the description is added', zb(len_(d) == len(user) + (1 if 'description' in d else 0)), f'{d!r}')


def len_(d):
    return d.length()


def loading(file):
    def h(e):
        k = Case(e, file=file, nu=None if file else 0)
        e.cover('pre')
        k.nw = 0
        k.agree(k.user, not file)
        e.prove('loading writes nothing but a missing registry', len(fs().writes) == (0 if file else 1))
        e.cover('post')
    return h


def add(folder, bad):
    def h(e):
        k = Case(e, folder=folder)
        k.bad = bad
        src = ('/src/', '/geo/', '/geo/sub/', '')[e.choose(4)]
        name = simple(e, 'name of the file')
        e.assume(name.t != SStr.of(k.descr).t)
        path = SStr.of(src) + name if src else name
        f = fs()
        p = world.term(path)
        e.assume(f.isfile0(p))
        e.cover('pre')
        r, ex = call(k.c.add, path)
        e.prove('the id is that of the first geopotential of the file', len(k.asked) == 1 and k.asked[0][1] is not None and set(k.asked[0][1]) == {'shortName'} and list(k.asked[0][1]['shortName']) == SHORT
                and bool(e.known(world.term(k.asked[0][0]) == p)), f'{k.asked}')
        log = f.log[k.nlog:]
        d = world.term('/geo' if k.folder is None else k.folder)
        isdir, can = f.isdir0(d), zb(f.access('/geo' if k.folder is None else k.folder, 2))
        dup = zor(*[zor(k.id.t == i.t, name.t == n.t) for i, n in k.known()])
        # a global entry hidden by one of the user with the same id is not known
        hidden = [zor(*[u.t == i.t for u, _ in k.user]) for i, _ in k.glob]
        dup = zor(*[zor(k.id.t == i.t, name.t == n.t) for i, n in k.user], *[zor(k.id.t == i.t, zand(name.t == n.t, znot(hd))) for (i, n), hd in zip(k.glob, hidden)])
        no = T if k.bad else zor(dup, T if not k.folder else F, znot(isdir), znot(can))
        if ex is not None:
            code = getattr(ex, 'code', None)
            X = k.exc
            e.prove('refusals are application errors', isinstance(ex, X.ApplicationException), extxt(ex))
            e.prove('a geopotential that is not registered is never refused', no, extxt(ex))
            if k.bad:
                e.prove('a file without geopotential is refused with its error', code == X.NO_MESSAGES, extxt(ex))
            else:
                e.prove('the error is the one of what is wrong', zor(zand(dup, T if code == X.EXISTING_GEOPOTENTIAL else F), T if not k.folder and code == X.NO_VAR_DEFINED else F,
                                                                     zand(znot(isdir), T if code == X.NOT_EXISTING_PATH else F), zand(znot(can), T if code == X.NO_WRITE_PERMISSIONS else F)), extxt(ex))
            e.prove('a refused file changes nothing', not log, str(log))
            k.agree(k.user, False)
            e.cover('refused')
            return
        e.prove('registered ids and names, missing files and folders are refused', znot(no))
        copies = [x for x in log if x[0] == 'copy']
        wr = [x for x in f.writes[k.nw:] if x[2] == 'copy']
        if src == '/geo/':
            e.prove('a file of the user folder stays where it is', not copies and not wr, str(log))
        else:
            e.prove('the file is copied into the user folder under its name', len(wr) == 1 and zand(wr[0][0] == z3.Concat(z3.StringVal('/geo/'), name.t), wr[0][1][1] == p), str(wr))
        e.prove('nothing else is touched', all(x[0] in ('copy', 'write') for x in log) and len(f.writes) - k.nw == len(wr) + 1, str(log))
        k.agree(k.user + [(k.id, name)], True)
        e.cover('post')
    return h


def remove(e):
    k = Case(e, folder='/geo')
    name = simple(e, 'name of the file')
    e.assume(name.t != SStr.of(k.descr).t)
    e.cover('pre')
    r, ex = call(k.c.remove, name)
    e.prove('removing never fails', ex is None, extxt(ex))
    if ex is not None:
        return
    left = [(i, n) for i, n in k.user if not e.branch(n.t == name.t)]
    f = fs()
    e.prove('no file is deleted, copied or written but the registry', all(x[0] == 'write' and x[1].eq(world.term(REG)) for x in f.log[k.nlog:]), str(f.log[k.nlog:]))
    wrote = len(f.writes) > k.nw
    e.prove('a removal is stored', wrote or len(left) == len(k.user))
    k.agree(left, wrote)
    e.cover('post')


def lookup(which):
    def h(e):
        k = Case(e, folder=('/geo', '/geo/', '')[e.choose(3)])
        q = gid(e, 'asked id')
        extra = which
        e.cover('pre')
        r, ex = call(k.c.get_filepath, q, additional=extra)
        n = k.lookup(q)
        f = fs()
        e.prove('looking up changes nothing', len(f.log) == k.nlog)
        if len(k.user) == len(k.glob) == 1 and not which:
            k.agree(k.user, False)
        if n is None:
            e.prove('an id that is not registered is refused with its error', ex is not None and getattr(ex, 'code', None) == k.exc.NO_GEOPOTENTIAL, extxt(ex))
            return
        before = []
        for d in (extra, k.folder, '/globgeo'):
            if not d:
                continue
            p = world.term(SStr.of(d if d.endswith('/') else d + '/') + n)
            c = f.isfile0(p)
            if ex is None:
                e.prove('the file found first is used: -G folder, user folder, global folder', zimp(zand(c, *[znot(b) for b in before]), SStr.of(r).t == p), f'{r!r}')
            before.append(c)
        if ex is None:
            e.prove('a path is only given for a file that exists', zor(*before))
            e.cover('post')
        else:
            e.prove('a registered id is only refused when no folder has its file', znot(zor(*before)), extxt(ex))
            e.prove('the refusal has its error', getattr(ex, 'code', None) == k.exc.NO_FILE_GEOPOTENTIAL, extxt(ex))
    return h


def reader(e):
    """GRIBReader.get_id: grid id of the first message found"""
    L = loader(OVER)
    L.load('pyg2p')
    m = L.load('pyg2p.main.readers.grib')
    X = L.load('pyg2p.exceptions')
    n = e.choose(3)
    ids = [gid(e, f'grid {k}') for k in range(n)]
    seen, closed = [], []

    def init(self, *a, **k):
        seen.append((a, k))

    class Details:
        def __init__(self, g):
            self.grid_id = ids[g]
    m.GribGridDetails = Details
    R = m.GRIBReader
    R.__init__ = init
    R.__del__ = lambda self: None
    R._get_gids = lambda self, **k: seen.append(k) or VList(range(n))
    R.close = lambda self: closed.append(1)
    e.cover('pre')
    r, ex = call(R.get_id, '/x.grib', {'shortName': SHORT})
    e.prove('the criteria are handed to the reader', seen == [(('/x.grib',), {}), {'shortName': SHORT}], str(seen))
    e.prove('the file is closed', len(closed) == 1)
    if n:
        e.prove('the id is the one of the first message', ex is None and zb(r == ids[0]), extxt(ex))
    else:
        e.prove('a file without a message of these short names is refused with its error', isinstance(ex, X.ApplicationException) and ex.code == X.NO_MESSAGES, extxt(ex))


def vcs(tier):
    both = ['pre', 'post']
    out = [dict(name='loading', harness=loading(True), covers=both), dict(name='first use', harness=loading(False), covers=both)]
    out += [dict(name=f'add[{d or "no folder"}]', harness=add(d, False), covers=both + ['refused'] if d else ['pre', 'refused'], budget_s=400, max_paths=20000) for d in ('/geo', '/geo/', '')]
    out += [dict(name='add[no geopotential]', harness=add('/geo', True), covers=['pre', 'refused'])]
    out += [dict(name='remove', harness=remove, covers=both), *[dict(name=f'lookup[-G {w!r}]', harness=lookup(w), covers=both) for w in (None, '/extra', '/extra/', '')], dict(name='grid id of a file', harness=reader, covers=['pre'])]
    return out
