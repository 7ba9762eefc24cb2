"""C15: time structure of the selected messages."""
from gribs import *

RULE = ('random GRIB files with messages in any order (regular, changing, repeated and irregular steps, several levels and members, instantaneous and accumulated), '
        'get_grib_info for the parameter; non-trivial: always')


def cases(rng, tier):
    while True:
        kind = rng.choice(['regular', 'change', 'change', 'random', 'single', 'cumulated'])
        d = rng.choice([1, 3, 6, 12, 24])
        n = 1 if kind == 'single' else rng.randint(2, 8)
        s0 = rng.choice([0, 0, d, 6])
        ends = [s0 + d * k for k in range(n)]
        if kind == 'change':
            k = rng.randint(1, n)
            d2 = rng.choice([1, 3, 6, 12, 24])
            ends = ends[:k] + [ends[k - 1] + d2 * j for j in range(1, n)]
        if kind == 'random':
            ends = sorted(rng.choice([0, 3, 6, 6, 9, 12, 18, 24, 30, 36]) for _ in range(n))
        acc = rng.random() < 0.5
        steps = [[0, x] if kind == 'cumulated' else [max(0, x - d), x] if acc and x >= d else [x, x] for x in ends]
        if kind == 'single':
            steps = [rng.choice([[0, 24], [12, 18], [6, 6], [0, 0], [24, 48]])]
        msgs = [dict(grid=0, short='2t', step=s, level=rng.choice([None, 10]), date=20190101, time=0, pert=rng.choice([None, None, 1]), values=[0] * 6, missing=None) for s in steps]
        msgs += [dict(grid=0, short='tp', step=[0, 96], level=None, date=20190101, time=0, pert=None, values=[0] * 6, missing=None)] * rng.randint(0, 1)
        if rng.random() < 0.6:
            rng.shuffle(msgs)
        yield dict(msgs=msgs, crit=rng.choice([{}, {}, {'perturbationNumber': 1}]), again=rng.random() < 0.5)


def check(c):
    from pyg2p.main.readers.grib import GRIBReader
    from pyg2p.exceptions import ApplicationException, NO_MESSAGES
    with Env() as env:
        path = env.path('in.grib')
        build(path, c['msgs'])
        sel = [m for m in independent(path) if m['shortName'] == '2t' and all(m.get(k) == v for k, v in c['crit'].items())]
        r = GRIBReader(path, w_perturb='perturbationNumber' in c['crit'])
        try:
            for k in range(2 if c['again'] else 1):
                try:
                    i = r.get_grib_info(dict(c['crit'], shortName='2t'))
                except ApplicationException as ex:
                    if not sel and ex.code == NO_MESSAGES:
                        continue
                    return f'unexpected {exc(ex)}'
                except Exception as ex:
                    return f'unexpected {exc(ex)}'
                if not sel:
                    return 'no message matches but a result was given'
                bad = compare_info(i, sel, r)
                if bad:
                    return bad
        finally:
            r.close()
    return None


def structure(sel):
    """(first, last, step, second step, position of the change)"""
    S, E = sorted(m['startStep'] for m in sel), sorted(m['endStep'] for m in sel)
    step = E[1] - E[0] if len(E) > 1 else E[0] - S[0]
    for i in range(2, len(E)):
        if E[i] - E[i - 1] != step:
            return S[0], E[-1], step, E[i] - E[i - 1], f'{S[i]}-{E[i]}'
    return S[0], E[-1], step, -1, ''


def compare_info(i, sel, r):
    first, last, step, step2, at = structure(sel)
    steps = sorted((m['startStep'], m['endStep']) for m in sel)
    for name, got, want in (('first step', i.start, first), ('last step', i.end, last), ('input step', i.input_step, step), ('second input step', i.input_step2, step2),
                            ('position of the change', i.change_step_at, at)):
        if got != want:
            return f'messages with steps {steps}: {name} {got!r}, expected {want!r}'
    last_m = sel[-1]
    if i.type_of_param != last_m['stepType']:
        return f'step type {i.type_of_param!r}, the last message has {last_m["stepType"]!r}'
    if not close(i.mv, sel[0]['__missing']):
        return f'missing value {i.mv!r}, the first message has {sel[0]["__missing"]!r}'
    return None
