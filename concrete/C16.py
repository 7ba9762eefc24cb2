"""C16: names and order of PCRaster output maps."""
import random
from outputs import *

RULE = ('random prefixes (1-10 characters), first map numbers up to six digits, extensions, 1-40 output steps, through OutputWriter; and whole runs of the Controller on GRIB files '
        'with the messages in random order; every produced file is read back and must be the one of its step; non-trivial: more than one step')
CASE_TIMEOUT = 200


def nontrivial(c):
    return c.get('k', 0) > 1 or len(c.get('steps', [])) > 1


def cases(rng, tier):
    while True:
        if rng.random() < 0.25:
            k = rng.randint(1, 7)
            st = sorted(rng.sample(range(0, 40), k))
            order = st[:]
            rng.shuffle(order)
            yield dict(kind='run', steps=st, order=order, prefix=rng.choice(['pf', 'abc1', 'T2m_mean']), fmap=rng.choice([1, 5, 99]), ext=rng.choice([1, 1, 3]),
                       cli=rng.random() < 0.3)
            continue
        n = rng.choice([1, 1, 2, 3, 4, 5, 6])
        fmap = rng.choice([1, 1, rng.randint(1, 10 ** n)])
        ext = rng.choice([1, 1, 1, rng.randint(2, 9), rng.randint(2, 400)])
        k = rng.choice([1, 2, 3, 5, 10, 12, 25, 40])
        last = fmap + (k - 1) * ext
        room = 11 - len(str(last))
        if room < 1:
            continue
        L = rng.choice([room, room, rng.randint(1, room), rng.randint(1, room)])
        prefix = ''.join(rng.choice('abcdefghijklmnopqrstuvwxyzABCXYZ_-0123456789') for _ in range(L))
        if prefix[0] in '-':
            prefix = 'x' + prefix[1:]
        yield dict(kind='writer', prefix=prefix, fmap=fmap, ext=ext, k=k)


def found(env, c, exp, what):
    have = sorted(os.listdir(env.out))
    want = sorted(exp)
    if have != want:
        return f'{what} (prefix {c["prefix"]!r}, fmap {c["fmap"]}, ext {c["ext"]}): files {have[:6]}, expected {want[:6]}'
    for f, v in exp.items():
        a = read_pcr(os.path.join(env.out, f))[0]
        if not all(close(x, v, 1e-6, 1e-6) for x in a.ravel()):
            return f'{what}: {f} holds {float(a.ravel()[0])!r}, the map of that step holds {v!r}'
    return None


def check(c):
    with Env() as env:
        if c['kind'] == 'writer':
            cc = dict(rows=2, cols=2, n=1, clone=[[1.0] * 2] * 2, steps=[6 * i for i in range(c['k'])], second=None, tables=[[0] * 4] * 2, target='pcr', prefix=c['prefix'],
                      fmap=c['fmap'], ext=c['ext'], fields=[dict(data=[float(i)], shape=[1], kind='plain', dtype='f8') for i in range(c['k'])])
            try:
                run(cc, env, 'pcraster')
            except Exception as ex:
                return f'writing maps: unexpected {exc(ex)}'
            exp = {name8_3(c['prefix'], c['fmap'] + i * c['ext']): float(i) for i in range(c['k'])}
            return found(env, c, exp, 'maps written')
        lats = np.array([[50.0 - r] * 3 for r in range(2)])
        lons = np.array([[5.0 + q for q in range(3)] for r in range(2)])
        env.maps(lats, lons)
        write_grib(env.path('in.grib'), [grib_message(step=(t, t), values=np.full(12, 300.0 + t)) for t in c['order']])
        om = {'@namePrefix': c['prefix'], '@unitTime': '24'}
        args = ['-B']
        if c['cli'] and c['fmap'] != 1:
            args += ['-f', str(c['fmap'])]
        else:
            om['@fmap'] = c['fmap']
        if c['cli'] and c['ext'] != 1:
            args += ['-x', str(c['ext'])]
        else:
            om['@ext'] = c['ext']
        env.command(mode='nearest', outmaps=om)
        from pyg2p.main.controller import Controller
        ctx = env.context(args)
        try:
            ctl = Controller(ctx)
            ctl.execute()
            ctl.close()
        except Exception as ex:
            return f'run over steps {c["order"]}: unexpected {exc(ex)}'
        exp = {name8_3(c['prefix'], c['fmap'] + i * c['ext']): 300.0 + t for i, t in enumerate(c['steps'])}
        return found(env, c, exp, f'run over messages in the order {c["order"]}')
