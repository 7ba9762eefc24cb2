"""shared by C14/C15: GRIB files with random messages and an independent reading of them"""
import os
from common import *
from env import Env, grib_message, write_grib

GRIDS = {0: dict(ni=3, nj=2), 1: dict(ni=2, nj=4), 2: dict(ni=4, nj=2)}


def message(rng, shorts, grids, steps):
    g = rng.choice(grids)
    n = GRIDS[g]['ni'] * GRIDS[g]['nj']
    miss = [int(rng.random() < 0.4) for _ in range(n)] if rng.random() < 0.4 else None
    if miss and all(miss):
        miss[rng.randrange(n)] = 0
    return dict(grid=g, short=rng.choice(shorts), step=list(rng.choice(steps)), level=rng.choice([None, None, 2, 10, 500]), date=rng.choice([20190101, 20190101, 20181231]),
                time=rng.choice([0, 0, 600, 1200, 1800, 30]), pert=rng.choice([None, None, 0, 1, 2]), values=[rng.randint(-40, 40) for _ in range(n)], missing=miss)


def build(path, msgs):
    write_grib(path, [grib_message(short=m['short'], step=tuple(m['step']), level=m['level'], date=m['date'], time=m['time'], pert=m['pert'], values=m['values'],
                                   missing=m['missing'], steptype=m.get('type'), units=m.get('units', 1), **GRIDS[m['grid']]) for m in msgs])


KEYS = ('shortName', 'level', 'dataTime', 'dataDate', 'perturbationNumber', 'startStep', 'endStep', 'Nj', 'units', 'stepUnits', 'stepType')


def independent(path, keys=()):
    """[dict(key -> value or absent, values, mask)] of the messages of a file, in file order"""
    import eccodes as ec
    out = []
    with open(path, 'rb') as f:
        while True:
            h = ec.codes_grib_new_from_file(f)
            if h is None:
                return out
            d = {k: ec.codes_get(h, k) for k in KEYS + tuple(keys) if ec.codes_is_defined(h, k)}
            d['__missing'] = ec.codes_get(h, 'missingValue')
            d['__stepUnits'] = ec.codes_get(h, 'stepUnits', ktype=str)
            d['__lat'], d['__lon'] = ec.codes_get_double_array(h, 'latitudes'), ec.codes_get_double_array(h, 'longitudes')
            d['__v'] = ec.codes_get_double_array(h, 'values')
            d['__m'] = (ec.codes_get_array(h, 'bitmap', int) == 0) if ec.codes_get(h, 'bitmapPresent') else np.zeros(len(d['__v']), bool)
            out.append(d)
            ec.codes_release(h)


def criterion(c):
    """argument of select_messages for a serialised criterion"""
    k, x = c
    if k == 'ge':
        return lambda s: s >= x
    if k == 'le':
        return lambda s: s <= x
    if k == 'between':
        return lambda s: x[0] <= s <= x[1]
    if k == 'in':
        return list(x)
    if k == 'tuple':
        return tuple(x)
    return x


def holds(c, v):
    k, x = c
    return {'ge': lambda: v >= x, 'le': lambda: v <= x, 'between': lambda: x[0] <= v <= x[1], 'in': lambda: v in x, 'tuple': lambda: v in x, 'eq': lambda: v == x}[k]()


def selected(msgs, crit):
    """messages that satisfy every criterion, in the order in which they are looked up"""
    names = crit['shortName'][1]
    names = list(names) if isinstance(names, (list, tuple)) else [names]
    ok = [m for m in msgs if all(k in m and holds(c, m[k]) for k, c in crit.items())]
    return [m for n in names for m in ok if m['shortName'] == n]


def mkey(m):
    return (m['startStep'], m['endStep'], m['Nj'], m['level'])


def compare(first, second, sel, what):
    """maps of both resolutions against the selected messages"""
    main = sel[0]['Nj']
    for got, want, name in ((first, [m for m in sel if m['Nj'] == main], 'first'), (second, [m for m in sel if m['Nj'] != main], 'second')):
        have = {(int(k.start_step), int(k.end_step), int(k.resolution), int(k.level)): v for k, v in got.items()}
        if len(have) != len(got):
            return f'{what}: a message occurs twice: {list(got)}'
        if set(have) != {mkey(m) for m in want}:
            return f'{what}: {name} resolution has messages (start, end, size, level) {sorted(have)}, selected are {sorted(mkey(m) for m in want)}'
        for m in want:
            v = have[mkey(m)]
            d, mk_ = data_of(v), mask_of(v)
            if d.shape != m['__v'].shape or any(bool(a) != bool(b) for a, b in zip(mk_, m['__m'])):
                return f'{what}: message {mkey(m)}: missing cells {mk_.astype(int).tolist()}, its bitmap {np.asarray(m["__m"]).astype(int).tolist()}'
            if any(not b and not close(a, x, 1e-12) for a, x, b in zip(d, m['__v'], m['__m'])):
                return f'{what}: message {mkey(m)}: values {d.tolist()}, in the file {m["__v"].tolist()}'
    return None
