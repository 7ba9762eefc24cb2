"""C16 contracts: OutputWriter._name_pcr_map and the loop of _write_maps_pcraster."""
from contracts.interp import *
from contracts.writing import *
from pyvc.syms import SStr, cut, known_parts

ASSUMPTIONS = [
    'prefix and first map number / extension are given as the documentation says (numbers are integers >= 0), and prefix + number fit into eleven characters; the prefix does not begin with /',
    'decimal notation: str(n) of a non-negative integer with D digits has length D; zero-padded decimal notation of fixed length is injective',
    'the interpolator and the map writer are stand-ins with their contracts (C07, C17)',
]


def number(e, what, digits):
    n = sint_(e, what)
    e.assume(zand(n.t >= (0 if digits == 1 else 10 ** (digits - 1)), n.t < 10 ** digits))
    return n


def naming(L):
    def h(e):
        e.state['strlen'] = []
        W = writing_world(e)
        prefix = SStr(e.fresh(world.S, 'prefix'))
        e.assume(z3.Length(prefix.t) == L)
        e.assume(znot(z3.PrefixOf(z3.StringVal('/'), prefix.t)))
        e.state['strlen'].append((prefix.t, L))
        if L == 0:
            prefix = ''
        D = 1 + e.choose(11 - L)
        fmap, ext, i = sint_(e, 'fmap'), sint_(e, 'ext'), sint_(e, 'i')
        num = number(e, 'number', D)
        e.assume(zand(fmap.t >= 0, ext.t >= 0, i.t >= 1, fmap.t + (i.t - 1) * ext.t == num.t))
        # str of the map number, whichever way it is written
        e.state['int_str'] = lambda t: (z3.IntToStr(num.t) if e.known(t == num.t) else None)
        e.state['strlen'].append((z3.IntToStr(num.t), D))
        w = W.writer(namePrefix=prefix, fmap=fmap, ext=ext)
        e.cover('pre')
        r, ex = call(w._name_pcr_map, i)
        e.prove('naming a map does not fail', ex is None, extxt(ex))
        if ex is not None:
            return
        s = [(prefix.t, L)] if L else []
        s += [('0' * (11 - L - D), 11 - L - D), (z3.IntToStr(num.t), D)]
        want = SStr.of('/out/') + SStr.of(cut(s, 0, 8)) + '.' + cut(s, 8, 11)
        e.prove('prefix, zeros and number: eleven characters with a dot after the eighth, in the output folder', zb(SStr.of(r) == want), f'{r} {want}')
        e.cover('post')
    return h


def order(change):
    def h(e):
        W = writing_world(e)
        steps(e, W, change)
        nm = core.uf('mapname', Z, world.S)
        name = []

        class Pcr:
            def write(self, f, v):
                it = W.calls[-1]
                p = it['pos']
                e.prove('the map of the k-th step gets the k-th name', SStr.of(f).t == nm(p + 1), str(f))
                e.prove('the map written is the one interpolated for that step', v is it['out'] or same_field(v, it['out']))
                e.cover('written')

            def close(self):
                pass
        w = W.writer(namePrefix='pf', fmap=1, ext=1)
        w.writer = Pcr()
        w._name_pcr_map = lambda i: SStr(nm(iterm_(i)))
        e.cover('pre')
        _, ex = call(w.write_maps, W.values, W.messages, W.change)
        e.prove('writing does not fail', ex is None, extxt(ex))
        e.cover('post')
    return h


def vcs(tier):
    out = [dict(name=f'name[prefix {L}]', harness=naming(L), covers=['pre', 'post']) for L in range(0, 11)]
    out += [dict(name=f'order[{c}]', harness=order(c), covers=['pre', 'post', 'written']) for c in ('one resolution', 'two resolutions')]
    return out
