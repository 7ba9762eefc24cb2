"""C24 at run time: API commands."""
import csv
import io
from env import Env

RULE = ('initial strings (with and without program name, flags in any place, --long=value, quoted values, repeated options, {variable} parts) followed by up to eight with_* calls (values with =, blanks, '
        'quotes, negative numbers; numbers and paths as values; repeated options); the argument vector that run() and run_command() hand to the program')
FLAGS = {'create_intertable': '-B', 'parallel': '-X'}
VALUED = {'cmdpath': '-c', 'inputfile': '-i', 'second_input_file': '-I', 'eps': '-m', 'tend': '-e', 'tstart': '-s', 'datatime': '-T', 'datadate': '-D', 'ext': '-x', 'fmap': '-f', 'outdir': '-o',
          'nameprefix': '-n', 'scaleFactor': '-S', 'offset': '-O', 'validMax': '-vM', 'validMin': '-vm', 'valueFormat': '-vf', 'log_level': '-l', 'out_format': '-F', 'outputStepUnits': '-U',
          'intertable_dir': '-N'}
VALUES = ['a.json', '/data/x.grb', '10', '0', '-273.15', '-5', '/d=1/e=2', 'ppyg2p', 'pyg2p', 'netcdf', '/my data/in.grb', 'x"y', '2p', 'ERROR', '-1.5', './', 'y p']


def cases(rng, tier):
    while True:
        init = []
        vars_ = {}
        for k in range(rng.choice([0, 0, 1, 2, 3, 5])):
            if rng.random() < 0.3:
                init.append([rng.choice(sorted(FLAGS.values())), None])
            else:
                v = rng.choice(VALUES)
                if rng.random() < 0.2:
                    vars_['root'] = rng.choice(['/data', '/x=1', '/p2'])
                    v = '{root}/' + rng.choice(['a', 'b.json'])
                if rng.random() < 0.2:
                    o = rng.choice(['--fmapx', '--geopotentialDir', '--foo'])
                    init.append([o, v.replace('"', '').replace(' ', '')])
                else:
                    init.append([rng.choice(sorted(VALUED.values())), v])
        calls = []
        for k in range(rng.randrange(0, 8)):
            if rng.random() < 0.3:
                calls.append([rng.choice(sorted(FLAGS)), None])
            else:
                v = rng.choice(VALUES)
                calls.append([rng.choice(sorted(VALUED)), rng.choice([v, v, 7, 0.5])])
        yield dict(init=init, calls=calls, prog=rng.choice(['', '', 'pyg2p ', 'pyg2p.py ']), none=rng.random() < 0.5, vars=vars_, string_in_between=rng.random() < 0.3, sep=rng.choice([' ', ' ', '  ']))


def q(v):
    return '"' + v.replace('"', '""') + '"' if ' ' in v or '"' in v else v


def check(c):
    from pyg2p.main import api
    want = {}
    parts = []
    for o, v in c['init']:
        if o.startswith('--'):
            parts.append(f'{o}={v}')
        else:
            parts += [o] if v is None else [o, q(v)]
        for k, r in c['vars'].items():
            v = v.replace('{%s}' % k, r) if v else v
        want[o] = v
    s = c['prog'] + c['sep'].join(parts)
    try:
        cmd = api.command(**c['vars']) if not s and c['none'] else api.command(s, **c['vars'])
        for m, v in c['calls']:
            f = getattr(cmd, 'with_' + m)
            r = f() if v is None else f(v)
            if r is not cmd:
                return f'with_{m} does not return the command'
            want[{**FLAGS, **VALUED}[m]] = None if v is None else str(v)
            if c['string_in_between']:
                str(cmd)
        seen = []
        old = api.pyg2p_exe
        api.pyg2p_exe = lambda *a: seen.append(list(a[0]) if len(a) == 1 and isinstance(a[0], (list, tuple)) else list(a)) or 5
        try:
            r1, r2 = cmd.run(), api.run_command(cmd)
        finally:
            api.pyg2p_exe = old
    except Exception as ex:
        return f'{type(ex).__name__} {ex}: {s!r} then {c["calls"]}'
    if (r1, r2) != (5, 5):
        return f'the exit code is not handed back: {r1}, {r2}'
    for argv in seen:
        got = []
        i = 0
        flags = set(FLAGS.values()) | {'-A'}
        while i < len(argv):
            if argv[i] in flags:
                got.append((argv[i], None))
                i += 1
            elif argv[i].startswith('--') and '=' in argv[i]:
                got.append(tuple(argv[i].split('=', 1)))
                i += 1
            else:
                got.append((argv[i], argv[i + 1] if i + 1 < len(argv) else '(nothing)'))
                i += 2
        w = dict(want)
        w.setdefault('-l', 'ERROR')
        if sorted(x for x in got if x[0] != '-A') != sorted(w.items()) if None not in [x[1] for x in got] else sorted((a, str(b)) for a, b in got if a != '-A') != sorted((a, str(b)) for a, b in w.items()):
            return f'{s!r} then {c["calls"]} gives the arguments {argv}'
    return None
