"""C23 at run time: histories of add / remove / lookup on the geopotential registry."""
import json as j
import os
import shutil
from env import Env, grib_message, write_grib

RULE = 'random histories (add from another folder or from the user folder, remove, look up, new process) over registries with user and global entries and competing folders; folder and registry compared to a model'


def cases(rng, tier):
    while True:
        names = ['g1.grib', 'g2.grib', 'g3.grib']
        files = {n: rng.randrange(3) for n in names}
        ops = []
        for k in range(rng.randrange(1, 8)):
            o = rng.choice(['add', 'add', 'add', 'remove', 'find', 'find', 'find', 'new', 'addin', 'addbad'])
            if o in ('add', 'remove', 'addin'):
                ops.append([o, rng.choice(names), rng.randrange(3)])
            elif o == 'find':
                ops.append([o, rng.randrange(4), rng.choice([None, 'extra', 'missing'])])
            else:
                ops.append([o])
        yield dict(reg={i: rng.choice(names) for i in range(3) if rng.random() < 0.3}, glob={i: rng.choice(names) for i in range(3) if rng.random() < 0.3}, ops=ops,
                   ufiles=[n for n in names if rng.random() < 0.3], gfiles=[n for n in names if rng.random() < 0.5], xfiles=[n for n in names if rng.random() < 0.4], path=rng.random() < 0.9)


def ident(i):
    return f'5${7 + i}${3 + i}$2${(3 + i) * 2}$regular_ll' if i < 3 else '9$9$1$1$1$regular_ll'


def tree(d):
    return {f: open(os.path.join(d, f), 'rb').read() for f in os.listdir(d)}


def check(c):
    with Env(conf=False) as e:
        e.reset_process_state()
        e.conf({'INTERTABLES': e.user, **({'GEOPOTENTIALS': e.geo} if c['path'] else {})})
        reg = {ident(int(i)): n for i, n in c['reg'].items()}
        glob = {ident(int(i)): n for i, n in c['glob'].items()}
        e.geopotentials({'description': 'x', **reg})
        src, extra = e.mkdir('src'), e.mkdir('extra')
        j.dump(glob, open(os.path.join(e.gconf, 'geopotentials.json'), 'w'))
        # a file per (name, grid)
        for n in ('g1.grib', 'g2.grib', 'g3.grib'):
            for i in range(3):
                os.makedirs(f'{src}/{i}', exist_ok=True)
                write_grib(f'{src}/{i}/{n}', [grib_message(short='z', ni=3 + i, nj=2, values=[float(ord(n[1]) + i)] * ((3 + i) * 2))])
        write_grib(f'{src}/bad.grib', [grib_message(short='2t')])
        for fs, d in ((c['ufiles'], e.geo), (c['gfiles'], e.globgeo), (c['xfiles'], extra)):
            for n in fs:
                open(os.path.join(d, n), 'wb').write(b'given')
        from pyg2p.main.config import UserConfiguration, GeopotentialsConfiguration
        from pyg2p.exceptions import ApplicationException
        conf = GeopotentialsConfiguration(UserConfiguration())
        load0 = conf.load_global()
        if {k: v for k, v in load0.items()} != glob:
            glob = dict(load0)
        ufolder = tree(e.geo)
        known = lambda: {**glob, **reg}
        for op in c['ops']:
            err = None
            if op[0] == 'new':
                e.reset_process_state()
                conf = GeopotentialsConfiguration(UserConfiguration())
                continue
            if op[0] == 'find':
                gid, add = ident(op[1]), {None: None, 'extra': extra, 'missing': e.path('nofolder')}[op[2]]
                try:
                    got = conf.get_filepath(gid, additional=add)
                except ApplicationException as ex:
                    got, err = None, ex.code
                name = known().get(gid)
                if name is None:
                    want = 4000
                else:
                    cand = [os.path.join(d, name) for d in (add, e.geo if c['path'] else None, e.globgeo) if d and os.path.isfile(os.path.join(d, name))]
                    want = cand[0] if cand else 4200
                if (got or err) != want:
                    return f'{op} gives {got or err}, not {want}; registry {known()}'
                continue
            if op[0] == 'remove':
                n = op[1]
                ids = [k for k, v in reg.items() if v == n]
                conf.remove(n)
                if len(ids) > 1:
                    return None    # several entries with one file name: which one goes is not stated
                for k in ids:
                    del reg[k]
            else:
                if op[0] == 'addbad':
                    f, gid = f'{src}/bad.grib', None
                elif op[0] == 'add':
                    f, gid = f'{src}/{op[2]}/{op[1]}', ident(op[2])
                else:
                    # a file the user has put into the folder himself
                    if not c['path'] or op[1] in known().values():
                        continue
                    f, gid = os.path.join(e.geo, op[1]), ident(op[2])
                    shutil.copy(f'{src}/{op[2]}/{op[1]}', f)
                    ufolder = tree(e.geo)
                name = os.path.basename(f)
                try:
                    conf.add(f)
                except ApplicationException as ex:
                    err = ex.code
                except Exception as ex:
                    return f'{op}: {type(ex).__name__} {ex}'
                if gid is None:
                    want = 'refused'
                elif gid in known() or name in known().values():
                    want = 8300
                elif not c['path']:
                    want = 8000
                else:
                    want = None
                    reg[gid] = name
                    ufolder[name] = open(f, 'rb').read()
                if want == 'refused' and err is None or want != 'refused' and err != want:
                    return f'{op} ends with {err}, not {want}; registry {known()}'
            now = {k: v for k, v in j.load(open(os.path.join(e.home, 'geopotentials.json'))).items() if k != 'description'}
            if now != reg:
                return f'after {op} the stored registry is {now}, not {reg}'
            if tree(e.geo) != ufolder:
                return f'after {op} the user folder has {sorted(tree(e.geo))}, or other contents, not {sorted(ufolder)}'
    return None
