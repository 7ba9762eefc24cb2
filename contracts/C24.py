"""C24 contracts: Command, run_command, to_argdict, to_argv, quote: the argument vector means the options that were set."""
from contracts.conf import *
from pyvc.models import text

ASSUMPTIONS = [
    'csv.reader (excel dialect with a blank as delimiter), re and str by contract (pyvc/models/text.py); argparse takes negative numbers as values',
    'values have no line ends and begin with - only as negative numbers; an option is given under one of its names; options of the initial string and builder calls: up to the stated number',
]
FLAGS = {'create_intertable': '-B', 'parallel': '-X'}
VALUED = {'cmdpath': '-c', 'inputfile': '-i', 'second_input_file': '-I', 'eps': '-m', 'tend': '-e', 'tstart': '-s', 'datatime': '-T', 'datadate': '-D', 'ext': '-x', 'fmap': '-f', 'outdir': '-o',
          'nameprefix': '-n', 'scaleFactor': '-S', 'offset': '-O', 'validMax': '-vM', 'validMin': '-vm', 'valueFormat': '-vf', 'log_level': '-l', 'out_format': '-F', 'outputStepUnits': '-U',
          'intertable_dir': '-N', 'log_dir': '-d'}
NL = '\n\r'
KINDS = 5


def value(e, kind, name, no=''):
    """(value handed to a builder call, its text); no: characters it does not contain"""
    if kind == 0:       # no blanks, no quotes
        v = text.atom(e, name, excl=text.WS + '"' + no, first='-')
    elif kind == 1:     # blanks, no quotes
        v = text.atom(e, name, excl=NL + '"' + no, has=' ', first='-' + text.WS, last=text.WS)
    elif kind == 2:     # quotes, maybe blanks
        v = text.atom(e, name, excl=NL + no, has='"', first='-')
    elif kind == 3:
        n = sint_(e, name)
        e.assume(n.t >= 0)
        return n, text.define(z3.IntToStr(n.t), excl=''.join(chr(c) for c in range(128) if not chr(c).isdigit()))
    else:
        x = (-5, -273.15, '-.5', 0.5, '=', 'a=b')[e.choose(6)]
        return x, str(x)
    return v, v


def written(e, kind, name, no):
    """(value, how it is written in a command string)"""
    if kind == 1:
        v = value(e, 1, name, no)[0]
        return v, '"' + v + '"'
    if kind == 2:
        v = value(e, 2, name, no)[0]
        return v, '"' + v.replace('"', '""') + '"'
    if kind == 4:
        x = ('-5', '-273.15', '-.5', 'ppyg2p', 'pyg2p', '=', 'a=b')[e.choose(7)]
        return x, x
    v = value(e, 0, name, no)[0]
    return v, v


def meaning(e, argv, want):
    """the argument vector gives exactly the wanted options"""
    got, i = {}, 0
    argv = list(argv)
    double = False
    while i < len(argv):
        k = argv[i]
        if not isinstance(k, str) or not k.startswith('-'):
            e.prove('only options and their values are handed to the program', F, f'{k!r} in {argv!r}')
            return
        double |= k in got
        if k in FLAGS.values() or k == '-A':
            got[k] = None
            i += 1
        else:
            got[k] = argv[i + 1] if i + 1 < len(argv) else False
            i += 2
    e.prove('no option is handed twice', not double, str(argv))
    e.prove('the marker of the API is handed to the program', '-A' in got, str(argv))
    got.pop('-A', None)
    e.prove('exactly the options that were set are handed to the program', set(got) == set(want), f'{sorted(got)} instead of {sorted(want)}')
    for k in want:
        if k in got:
            g, w = got[k], want[k]
            e.prove('every option has the value set last', T if g is None and w is None else F if not isinstance(g, (str, SStr)) or w is None else SStr.of(g).t == SStr.of(w).t, f'{k}: {g!r} instead of {w!r}')


def api(e):
    L = loader(text.MODELS)
    L.load('pyg2p')
    A = L.load('pyg2p.main.api')
    seen = []
    code = sint_(e, 'exit code')

    def exe(*a):
        seen.append(a[0] if len(a) == 1 and isinstance(a[0], (list, tuple)) else a)
        return code
    A.pyg2p_exe = exe
    return L, A, seen, code


def go(e, A, seen, code, s, params, calls, want, mid=False):
    e.cover('pre')

    def f():
        c = A.command(s, **params) if s is not None else A.command(**params)
        for m, v in calls:
            g = getattr(c, 'with_' + m)
            r = g() if v is None else g(v)
            e.prove('builder calls can be chained', r is c)
            if mid:
                str_(c)
        return c.run(), A.run_command(c)
    r, ex = call(f)
    e.prove('a command can be built and run', ex is None, extxt(ex))
    if ex is not None:
        return
    e.prove('the exit code of the program is handed back', zand(zb(r[0] == code), zb(r[1] == code)))
    want.setdefault('-l', 'ERROR')
    e.prove('the program is called once per run', len(seen) == 2)
    for argv in seen:
        meaning(e, argv, dict(want))
    e.cover('post')


def str_(c):
    return type(c).__str__(c)


def builders(n):
    """n builder calls on an empty command"""
    def h(e):
        L, A, seen, code = api(e)
        want, calls = {}, []
        names = sorted(VALUED) + sorted(FLAGS)
        for k in range(n):
            m = names[e.choose(len(names))] if n == 1 else ('create_intertable', 'offset', 'nameprefix', 'log_level')[e.choose(4)]
            if m in FLAGS:
                calls.append((m, None))
                want[FLAGS[m]] = None
            else:
                v, t = value(e, e.choose(KINDS) if n < 3 else (0, 2)[e.choose(2)], f'value {k}')
                calls.append((m, v))
                want[VALUED[m]] = t
        go(e, A, seen, code, (None, '', 'pyg2p', 'pyg2p.py', ' ')[e.choose(5)] if n == 1 else None, {}, calls, want, mid=n == 2)
    return h


def initial(n, no=''):
    """n options in the initial string, one call behind"""
    def h(e):
        L, A, seen, code = api(e)
        want, s, params = {}, ('', 'pyg2p ', 'pyg2p.py ', ' pyg2p  ')[e.choose(4) if n < 2 else 1], {}
        sep = (' ', '  ')[e.choose(2) if n == 2 else 0]
        for k in range(n):
            m = e.choose((5 if no else 3) if n < 3 else 3)
            if m == 0:
                s, o, v = s + '-B', '-B', None
            elif m == 1:
                o = ('-i', '-o')[e.choose(2)]
                v, w = written(e, e.choose(KINDS) if n < 3 else (0, 1)[e.choose(2)], f'value {k}', no)
                s = s + o + ' ' + w
            elif m == 2:
                o = '--geopotentialDir'
                v = text.atom(e, f'value {k}', excl=text.WS + '"' + no, first='-')
                s = s + o + '=' + v
            elif m == 3:
                o, a = '-c', text.atom(e, f'rest {k}', excl=text.WS + '"{}')
                params['root'] = params.get('root') or text.atom(e, 'variable', excl=text.WS + '"{}', first='-')
                s, v = s + '-c {root}/' + a, params['root'] + '/' + a
            else:
                o, a = '-l', 'DEBUG'
                s, v = s + '-l DEBUG', a
            want[o] = v
            s = s + (sep if k < n - 1 else '')
        calls = []
        if e.choose(2):
            v, t = value(e, e.choose(3) if n == 1 else 0, 'later')
            calls.append(('inputfile', v))
            want['-i'] = t
        go(e, A, seen, code, s, params, calls, want)
    return h


def vcs(tier):
    t = tier == 'thorough'
    out = [dict(name=f'builder calls[{n}]', harness=builders(n), covers=['pre', 'post']) for n in ((1, 2, 3) if t else (1, 2))]
    out += [dict(name=f'initial string[{n} options{", variables" if no else ""}]', harness=initial(n, no), covers=['pre', 'post'], max_paths=20000)
            for n in ((0, 1, 2, 3) if t else (0, 1, 2)) for no in (('', '{}') if n else ('',))]
    return out
