from aggr import *
from aggr import check as _check


def cases(rng, tier):
    g = [gen(rng, tier, a) for a in ('accumulation', 'average', 'instantaneous')]
    while True:
        c = next(rng.choice(g))
        if any(a['kind'] == 'masked' for _, a in c['msgs']) or rng.random() < 0.1:
            yield c


def check(c):
    return _check(c, 'missing')
