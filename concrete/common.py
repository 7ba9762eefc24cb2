"""helpers for run-time contracts"""
import math
import os
import numpy as np
from numpy import ma


def mk(a):
    """array from its JSON description"""
    v = np.array(a['data'], dtype=a.get('dtype', 'f8')).reshape(a['shape'])
    if a.get('kind') == 'masked':
        return ma.array(v, mask=np.array(a['mask'], dtype=bool).reshape(a['shape']))
    if a.get('kind') == 'nomask':
        return ma.array(v)
    return v


def gen_arr(rng, shape, kind=None, dtype='f8', lo=-50, hi=50, special=()):
    n = int(np.prod(shape))
    kind = kind or rng.choice(['plain', 'masked', 'nomask'])
    data = []
    for _ in range(n):
        r = rng.random()
        if special and r < 0.2:
            data.append(rng.choice(special))
        elif r < 0.3:
            data.append(float(rng.randint(int(lo), int(hi))))
        else:
            data.append(round(rng.uniform(lo, hi), 3))
    a = dict(data=data, shape=list(shape), kind=kind, dtype=dtype)
    if kind == 'masked':
        m = [rng.random() < 0.3 for _ in range(n)]
        if rng.random() < 0.15:
            m = [False] * n
        a['mask'] = m
    return a


def mask_of(v):
    return ma.getmaskarray(v)


def data_of(v):
    return np.asarray(ma.getdata(v))


def close(a, b, rel=1e-9, ab=1e-9):
    a, b = float(a), float(b)
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def cells(v):
    """flat list of values with None for missing"""
    d, m = data_of(v).ravel(), mask_of(v).ravel()
    return [None if mm else float(x) for x, mm in zip(d, m)]


def exc(e):
    return f'{type(e).__name__}: {e}'[:300]
