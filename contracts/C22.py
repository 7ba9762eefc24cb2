"""C22 contracts: UserConfiguration (loading of .conf files, interpolate, interpolate_strings) and what ExecutionContext makes of the path options."""
from contracts.conf import *
from pyvc.models import text

ASSUMPTIONS = [
    're: findall, finditer, sub, search, match of patterns made of two delimiters and a body without them (contract in pyvc/models/text.py, regular languages by z3)',
    'variable names in braces are identifiers of any length, other texts and values are arbitrary (values may contain braces and =); lines, variables and references: up to the stated number',
    'file iteration yields the lines with their line ends; os.listdir the names of the folder in any order',
]
WORD = '_0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz'
NOWORD = ''.join(chr(c) for c in range(128) if chr(c) not in WORD)
IDENT = text.regex('[a-zA-Z_][a-zA-Z0-9_]*')
HOME = '/home/u/.pyg2p/'


def ident(e, name):
    return text.atom(e, name, excl=NOWORD, regex=IDENT)


def value(e, name):
    """any text that does not begin or end with quotes or blanks"""
    return text.atom(e, name, excl='\n\r', edges=text.WS + '"')


def config():
    L = loader(text.MODELS)
    L.load('pyg2p')
    return L, L.load('pyg2p.main.config')


def user(C, vars_):
    u = C.UserConfiguration.__new__(C.UserConfiguration)
    u.vars = vars_
    return u


def variables(e, n):
    names = [ident(e, f'name {i}') for i in range(n)]
    if n > 1:
        e.assume(z3.Distinct(*[x.t for x in names]))
    return [(x, value(e, f'value {i}')) for i, x in enumerate(names)]


def interpolate(nseg):
    def h(e):
        e.state['open'] = world.open_
        L, C = config()
        vs = variables(e, e.choose(3))
        u = user(C, VDict(vs))
        s, want, opened, missing = '', '', False, []
        for k in range(nseg):
            kind = e.choose(6)
            if kind == 0:
                x = text.atom(e, f'text {k}', excl='{}')
                s, want = s + x, want + x
            elif kind == 1:
                r = ident(e, f'reference {k}')
                s = s + '{' + r + '}'
                for n, v in vs:
                    if e.branch(r.t == n.t):
                        want = want + v
                        break
                else:
                    missing.append(r)
                opened = False
            elif kind == 2:
                x = text.atom(e, f'other {k}', excl='{}', regex=z3.Complement(IDENT))
                s, want, opened = s + '{' + x + '}', want + '{' + x + '}', False
            elif kind == 3:
                s, want, opened = s + '{}', want + '{}', False
            elif kind == 4:
                s, want, opened = s + '{', want + '{', True
            elif not opened:
                s, want = s + '}', want + '}'
        e.cover('pre')
        r, ex = call(u.interpolate, s)
        if missing:
            e.cover('missing')
            e.prove('a variable that is not defined is refused with its own error', ex is not None and getattr(ex, 'code', None) == 8000 and isinstance(ex, L.load('pyg2p.exceptions').ApplicationException), extxt(ex))
            return
        e.prove('a text with defined variables is accepted', ex is None, extxt(ex))
        if ex is None:
            e.prove('every {NAME} becomes the value of NAME, everything else stays', isinstance(r, (str, SStr)) and SStr.of(r).t == SStr.of(want).t, f'{r!r} instead of {want!r}')
            e.cover('post')
    return h


def line(e, k, defs):
    """one line of a .conf file"""
    kind = e.choose(8)
    if kind == 0:
        return '\n'
    if kind == 1:
        return '#' + text.atom(e, f'comment {k}', excl='\n\r', edges=text.WS) + '\n'
    if kind == 2:
        return '  # A=' + text.atom(e, f'comment {k}', excl='\n\r', edges=text.WS) + '\n'
    if kind == 3:
        return text.atom(e, f'noise {k}', excl='=#\n\r' + text.WS) + '\n'
    n, v = ident(e, f'name {k}'), value(e, f'value {k}')
    defs.append((n, v))
    return {4: n + '=' + v + '\n', 5: '\t' + n + ' = ' + v + '  \n', 6: n + '="' + v + '"\n', 7: n + '= " ' + v + '"'}[kind]


def load(nlines):
    def h(e):
        e.state['open'] = world.open_
        L, C = config()
        defs = []
        f = fs()
        e.assume(f.isdir0(world.term(HOME)))
        names = ['b.conf', 'a.conf', 'a.json', 'conf', 'c.conf~'][:5 if nlines else 0]
        e.state['listdir'] = lambda p: VList(names if e.choose(2) else names[::-1])
        for nm in sorted(names):
            d = defs if nm.endswith('.conf') else []
            n = {'a.conf': nlines[0], 'b.conf': nlines[1]}.get(nm, 1) if nlines else 0
            f.content.append((world.term(HOME + nm), VList([line(e, f'{nm} {k}', d) for k in range(n)]) if nm.endswith('.conf') else VList(['GEOPOTENTIALS=/no\n']), 'text'))
            e.assume(f.isfile0(world.term(HOME + nm)))
        e.cover('pre')
        u, ex = call(C.UserConfiguration)
        e.prove('.conf files are read', ex is None, extxt(ex))
        if ex is not None:
            return
        q = ident(e, 'asked')
        want = None
        for n, v in reversed(defs):
            if e.branch(q.t == n.t):
                want = v
                break
        got = u.get(q)
        e.prove('a variable has the value of its last definition in the .conf files read in name order', T if want is None and got is None else F if want is None or got is None else SStr.of(got).t == SStr.of(want).t, f'{got!r} instead of {want!r}')
        for k, p in (('GEOPOTENTIALS', u.geopotentials_path), ('INTERTABLES', u.intertables_path)):
            w = u.get(k)
            e.prove('data folders are the variables of that name', T if w is None and p is None else F if w is None or p is None else SStr.of(p).t == SStr.of(w).t)
        e.cover('post')
    return h


OPTS = [('outMaps.clone', 'OutMaps', '@cloneMap', '/clone.map'), ('interpolation.latMap', 'Interpolation', '@latMap', '/lat.map'), ('interpolation.lonMap', 'Interpolation', '@lonMap', '/lon.map'),
        ('interpolation.cdd_map', 'Interpolation', '@cdd_map', '/cdd.map'), ('correction.demMap', 'Parameter', '@demMap', '/dem.map'),
        ('interpolation.dirs', 'Execution', '@intertableDir', '/it'), ('geopotential.dirs', 'Execution', '@geopotentialDir', '/geo')]


def options(which):
    def h(e):
        """the texts an execution uses for its paths"""
        given = {}
        missing = []
        v = value(e, 'value of A')
        secs = dict(Parameter=[('@correctionFormula', 'p+{A}'), ('@gem', '{A}z')], OutMaps=[], Interpolation=[], Execution=[])
        for k, (key, sec, att, tail) in enumerate(OPTS):
            m = e.choose(3) if k in which else 1
            if m == 0 and key.endswith('.dirs'):
                continue
            t = {0: '/x' + tail, 1: '{A}' + tail, 2: '/{B}' + tail}[m]
            given[key] = {0: t, 1: v + tail, 2: None}[m]
            if m == 2:
                missing.append(key)
            secs[sec].append((att, t))
        doc = document(secs)
        o = doc['Execution']['OutMaps']
        for n in ('@latMap', '@lonMap'):    # document() puts its own in front
            o['Interpolation'][n] = dict(secs['Interpolation'])[n]
        o['@cloneMap'] = dict(secs['OutMaps'])['@cloneMap']
        L, C = conf_world(e, doc, text.MODELS)
        cf = L.load('pyg2p.main.config')
        u = user(cf, VDict([('A', v)]))
        mk = C.Configuration

        def conf(*a):
            c = mk()
            c.user = u
            return c
        C.Configuration = conf
        exists(e, CMD, IN)
        e.assume(fs().isdir0(world.term('/out/')))
        for k in ('outMaps.clone', 'interpolation.latMap', 'interpolation.lonMap', 'correction.demMap'):
            if given[k] is not None:
                e.assume(fs().isfile0(world.term(given[k])))
        if given['interpolation.cdd_map'] is not None:
            e.assume(fs().isfile0(world.term(given['interpolation.cdd_map'])))
        e.cover('pre')
        ctx, ex = call(C.ExecutionContext, Argv({'-c': Token(CMD, 'str'), '-i': Token(IN, 'str'), '-o': Token('/out/', 'str')}))
        if missing:
            e.cover('missing')
            e.prove('a variable that is not defined is refused with its own error', ex is not None and getattr(ex, 'code', None) == 8000, extxt(ex))
            return
        e.prove('a configuration whose files exist once the variables are replaced is accepted', ex is None, extxt(ex))
        if ex is not None:
            return
        for k, w in given.items():
            g = ctx.get(k)
            g = g['user'] if k.endswith('.dirs') and g is not None else g
            e.prove(f'{k} has its variables replaced', isinstance(g, (str, SStr)) and SStr.of(g).t == SStr.of(w).t, f'{g!r} instead of {w!r}')
        e.prove('formulas keep their braces', zand(zb(ctx.get('correction.formula') == 'p+{A}'), zb(ctx.get('correction.gemFormula') == '{A}z')))
        e.cover('post')
    return h


def vcs(tier):
    n = 4 if tier == 'thorough' else 3
    out = [dict(name=f'interpolate[{k} parts]', harness=interpolate(k), covers=['pre', 'post'], bounded='parts') for k in range(n + 1)]
    out += [dict(name=f'conf files[{a} and {b} lines]', harness=load((a, b)), covers=['pre', 'post']) for a, b in (((0, 0), (1, 0), (2, 0), (1, 1)) + (((2, 1),) if tier == 'thorough' else ()))]
    out += [dict(name='no conf files', harness=load(None), covers=['pre', 'post'])]
    out += [dict(name=f'path options[{i}]', harness=options(w), covers=['pre', 'post', 'missing']) for i, w in enumerate(((0, 1), (2, 3), (4, 5), (5, 6), (0, 6)))]
    return out
