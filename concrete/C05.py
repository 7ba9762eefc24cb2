"""C05: unit conversion and cut-off (run-time contract on Converter and Messages.apply_conversion)."""
import math
import numpy as np
from numpy import ma
from common import *

RULE = ('random fields (plain, masked, nomask arrays; f8/f4; values equal to the missing value, zero, negative), a set of formulas, both call forms of the cut-off, '
        'messages of both resolutions; non-trivial: at least one valid cell')
FORMULAS = {
    'x=x': lambda x: x,
    'x=x-273.15': lambda x: x - 273.15,
    'x=x*1000': lambda x: x * 1000,
    'x=x/9.80665': lambda x: x / 9.80665,
    'x=(x*(-1))': lambda x: -x,
    'x=x**2+1': lambda x: x ** 2 + 1,
    'x=where(x==0, 7, x)': lambda x: 7.0 if x == 0 else x,
    'x=where(x<0, 0, x)': lambda x: 0.0 if x < 0 else x,
    'x=where(x>=1, 1, 0)': lambda x: 1.0 if x >= 1 else 0.0,
    'x=sqrt(x*x)': lambda x: abs(x),
    'x=5+x': lambda x: 5 + x,
}


def cases(rng, tier):
    while True:
        mode = rng.choice(['convert', 'convert', 'cutoff', 'cutoffdict', 'messages'])
        mv = rng.choice([-9999.0, 9999.0, 1e20, 0.0, -1.0, 3.0])
        dt = rng.choice(['f8', 'f8', 'f4'])
        if dt == 'f4' and mv == 1e20:
            mv = 9999.0
        shape = rng.choice([[1], [3], [7], [2, 3], [4, 2]])
        g = lambda: gen_arr(rng, shape, dtype=dt, lo=-20, hi=20, special=(mv, 0.0, -0.0, -1e-9, 1.0))
        c = dict(mode=mode, func=rng.choice(list(FORMULAS)), mv=mv, a=g())
        if mode == 'messages':
            c['second'] = [g() for _ in range(rng.randint(0, 2))]
            c['first'] = [g() for _ in range(rng.randint(1, 3))]
        if mode == 'cutoffdict':
            c['first'] = [g() for _ in range(rng.randint(1, 3))]
        yield c


def expect_convert(before, after, func, mv, name='field'):
    f = FORMULAS[func]
    b, bm = data_of(before).ravel(), mask_of(before).ravel()
    a, am = data_of(after).ravel(), mask_of(after).ravel()
    if np.shape(before) != np.shape(after):
        return f'{name}: shape {np.shape(before)} became {np.shape(after)}'
    rel = 1e-5 if b.dtype == np.float32 else 1e-9
    for i in range(b.size):
        if bool(bm[i]) != bool(am[i]):
            return f'{name} cell {i}: missing={bool(bm[i])} before, {bool(am[i])} after conversion with {func}'
        if bm[i]:
            continue
        x = float(b[i])
        e = x if (x == mv) else f(x)
        if not close(a[i], e, rel, 1e-5 if rel > 1e-6 else 1e-9):
            return f'{name} cell {i}: {x!r} (missing value {mv}) became {float(a[i])!r}, expected {e!r} with {func}'
    return None


def expect_cut(before, after, name='field'):
    b, bm = data_of(before).ravel(), mask_of(before).ravel()
    a, am = data_of(after).ravel(), mask_of(after).ravel()
    if np.shape(before) != np.shape(after):
        return f'{name}: shape changed by cut-off'
    for i in range(b.size):
        if bool(bm[i]) != bool(am[i]):
            return f'{name} cell {i}: missing={bool(bm[i])} before, {bool(am[i])} after cut-off'
        if bm[i]:
            continue
        x = float(b[i])
        if not close(a[i], 0.0 if x < 0 else x, 1e-12, 0):
            return f'{name} cell {i}: {x!r} became {float(a[i])!r} after cut-off'
    return None


def check(c):
    from pyg2p.main.manipulation.conversion import Converter
    a = mk(c['a'])
    before = a.copy()
    try:
        conv = Converter(func=c['func'], cut_off=True)
        conv.set_missing_value(c['mv'])
        if c['mode'] == 'convert':
            return expect_convert(before, conv.convert(a), c['func'], c['mv'])
        if c['mode'] == 'cutoff':
            return expect_cut(before, conv.cut_off_negative(a))
        if c['mode'] == 'cutoffdict':
            d = {k: mk(x) for k, x in enumerate(c['first'])}
            b = {k: mk(x) for k, x in enumerate(c['first'])}
            r = conv.cut_off_negative(d)
            if sorted(r.keys()) != sorted(b.keys()):
                return 'cut-off lost or added a map'
            for k in b:
                m = expect_cut(b[k], r[k], f'map {k}')
                if m:
                    return m
            return None
        from pyg2p import Messages, Step
        first = {Step(0, 6 * (i + 1), 10, 6, 0): mk(x) for i, x in enumerate(c['first'])}
        second = {Step(0, 100 + 6 * (i + 1), 20, 6, 0): mk(x) for i, x in enumerate(c['second'])}
        b1 = {k: v.copy() for k, v in first.items()}
        b2 = {k: v.copy() for k, v in second.items()}
        m = Messages(first, c['mv'], 'K', 'surface', 'instant', 'h', None, val_2nd=second, data_date='20190101', data_time='00')
        conv = Converter(func=c['func'], cut_off=False)
        m.apply_conversion(conv)
        for nm, bb, got in (('first resolution', b1, m.first_resolution_values()), ('second resolution', b2, m.second_resolution_values())):
            if set(bb) != set(got):
                return f'{nm}: the set of messages changed'
            for k in bb:
                r = expect_convert(bb[k], got[k], c['func'], c['mv'], f'{nm} {k.end_step}')
                if r:
                    return r
        return None
    except Exception as e:
        return f'unexpected {exc(e)} ({c["mode"]}, {c["func"]})'
