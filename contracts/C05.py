"""C05 contracts: Converter.convert / cut_off_negative / Messages.apply_conversion."""
from pyvc.harness import *
from pyvc.arr import sym_array, Arr
from pyvc.models.np_model import apply_opaque
from pyvc.containers import VDict

ASSUMPTIONS = [
    'the configured formula is an arbitrary function of x (vcF, including NaN/inf results); its text reaches numexpr unchanged apart from the leading "x="',
    'numexpr.evaluate is elementwise and ignores masks (assumed contract, cross-checked by the run-time contracts)',
    'floats are mathematical reals plus NaN/inf: rounding is not modelled',
    'fields are at most two-dimensional',
]
KINDS = [False, True, 'nomask']


def _field(e, name, dims):
    n = [sint_(e, f'{name}.d{k}') for k in range(dims)]
    for d in n:
        e.assume(d.t >= 0)
    k = e.choose(3)
    return sym_array(name, tuple(n), masked=KINDS[k], nan=True)


def post_convert(e, x0, r, mv, name, f):
    e.prove(f'{name}: same shape', zand(*[zb(a == b) for a, b in zip(r.shape, x0.shape)]) if len(r.shape) == len(x0.shape) else F)
    i = x0.fresh_index()
    xv = x0.at(*i)
    eqmv = zb(ew('==', xv, mv))
    valid = znot(x0.m(*i))
    e.prove(f'{name}: a valid value becomes f(value)', zimp(zand(valid, znot(eqmv)), same(r.at(*i), f(xv))))
    e.prove(f'{name}: a value equal to the missing value stays', zimp(zand(valid, eqmv), same(r.at(*i), xv)))
    e.prove(f'{name}: missing cells stay missing, valid cells stay valid', x0.m(*i) == r.m(*i))


def convert(e):
    m = loader().load('pyg2p.main.manipulation.conversion')
    x = _field(e, 'x', 1 + e.choose(2))
    x0 = x.snap()
    mv = sreal_(e, 'mv')
    c = m.Converter(func='x=vcF(x)')
    c.set_missing_value(mv)
    e.cover('pre')
    r, ex = call(c.convert, x)
    e.prove('convert does not fail', ex is None, extxt(ex))
    if ex is None:
        post_convert(e, x0, r, mv, 'convert', lambda v: apply_opaque('vcF', [v]))


def concrete_formula(e):
    """formula texts with a comparison on x and with the identity"""
    m = loader().load('pyg2p.main.manipulation.conversion')
    x = _field(e, 'x', 1)
    x0 = x.snap()
    mv = sreal_(e, 'mv')
    txt, f = [('x=where(x==0,vcF(x),x)', lambda v: ite(zb(ew('==', v, lift(0))), apply_opaque('vcF', [v]), v)),
              ('x=x-273.15', lambda v: ew('-', v, lift(273.15))), ('x=x', lambda v: v)][e.choose(3)]
    c = m.Converter(func=txt)
    c.set_missing_value(mv)
    e.cover('pre')
    r, ex = call(c.convert, x)
    e.prove('convert does not fail', ex is None, extxt(ex))
    if ex is None:
        post_convert(e, x0, r, mv, txt, f)


def post_cut(e, x0, r, name):
    e.prove(f'{name}: same shape', zand(*[zb(a == b) for a, b in zip(r.shape, x0.shape)]) if len(r.shape) == len(x0.shape) else F)
    i = x0.fresh_index()
    xv = x0.at(*i)
    neg = zb(ew('<', xv, lift(0)))
    e.prove(f'{name}: exactly the negative values become zero', zimp(znot(x0.m(*i)), same(r.at(*i), ite(neg, lift(0.0), xv))))
    e.prove(f'{name}: missing cells preserved', x0.m(*i) == r.m(*i))


def cutoff(e):
    m = loader().load('pyg2p.main.manipulation.conversion')
    x = _field(e, 'x', 1 + e.choose(2))
    x0 = x.snap()
    c = m.Converter(func='x=x', cut_off=True)
    e.cover('pre')
    r, ex = call(c.cut_off_negative, x)
    e.prove('cut_off_negative does not fail', ex is None, extxt(ex))
    if ex is None:
        post_cut(e, x0, r, 'one field')


def cutoff_dict(e):
    m = loader().load('pyg2p.main.manipulation.conversion')
    xs = [_field(e, f'x{k}', 1) for k in range(2)]
    x0 = [x.snap() for x in xs]
    d = {'a': xs[0], 'b': xs[1]}
    c = m.Converter(func='x=x', cut_off=True)
    e.cover('pre')
    r, ex = call(c.cut_off_negative, d)
    e.prove('cut_off_negative does not fail', ex is None, extxt(ex))
    if ex is None:
        e.prove('same maps', set(r.keys()) == {'a', 'b'})
        for k, x in zip('ab', x0):
            post_cut(e, x, r[k], f'map {k}')


def messages(e):
    L = loader()
    m = L.load('pyg2p.main.manipulation.conversion')
    P = L.load('pyg2p')
    n1, n2 = 1 + e.choose(2), e.choose(3)
    mk = lambda n, off: {P.Step(0, off + k, 10, 6, 0): _field1(e, f'm{off + k}') for k in range(n)}
    first, second = mk(n1, 6), mk(n2, 100)
    b1, b2 = {k: v.snap() for k, v in first.items()}, {k: v.snap() for k, v in second.items()}
    mv = sreal_(e, 'mv')
    ms = P.Messages(VDict(first), mv, 'K', 'surface', 'instant', 'h', None, val_2nd=VDict(second), data_date='20190101', data_time='00')
    c = m.Converter(func='x=vcF(x)')
    e.cover('pre')
    _, ex = call(ms.apply_conversion, c)
    e.prove('apply_conversion does not fail', ex is None, extxt(ex))
    if ex is None:
        for nm, b, got in (('first', b1, ms.first_resolution_values()), ('second', b2, ms.second_resolution_values())):
            e.prove(f'{nm} resolution: same messages', len(got.keys()) == len(b))
            for k in b:
                post_convert(e, b[k], got[k], mv, f'{nm} resolution', lambda v: apply_opaque('vcF', [v]))


def _field1(e, name):
    n = sint_(e, name + '.n')
    e.assume(n.t >= 0)
    return sym_array(name, (n,), masked=True, nan=True)


def vcs(tier):
    return [dict(name='convert', harness=convert), dict(name='convert-formulas', harness=concrete_formula), dict(name='cutoff', harness=cutoff),
            dict(name='cutoff-dict', harness=cutoff_dict), dict(name='messages', harness=messages)]
