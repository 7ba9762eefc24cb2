from aggr import *
from aggr import check as _check


def cases(rng, tier):
    return gen(rng, tier, 'average')


def check(c):
    return _check(c, 'values')
