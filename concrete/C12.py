"""C12: which interpolation table is used, and what is written, when interpolating."""
import os
import random
from common import *
from env import Env
from tables import *

RULE = ('interpolation modes nearest, invdist, grib_nearest, grib_invdist; table registered by the user, globally, both or not at all; stored plain or compressed in the '
        'user folder, the global folder, both or nowhere; creation requested or not; user folder writable, absent, not configured or read-only; name collisions; '
        'non-trivial: always')
MODES = ['nearest', 'invdist', 'grib_nearest', 'grib_invdist']
NAMES = ['tbl_a.npy', 'tbl_b.npy.gz', 'tbl_c.gz', 'tbl_d']
CASE_TIMEOUT = 60


def cases(rng, tier):
    while True:
        mode = rng.choice(MODES)
        c = dict(mode=mode, rows=rng.randint(1, 3), cols=rng.randint(1, 4), v=gen_arr(rng, [20]), v2=gen_arr(rng, [20]), seed=rng.randrange(10 ** 6),
                 user_reg=rng.choice([None, None, None, None, 0, 1, 2, 3]), glob_reg=rng.choice([None, None, None, None, 0, 1, 2, 3]), files=[], create=rng.random() < 0.5,
                 perm=rng.choice(['ok', 'ok', 'ok', 'ok', 'missing', 'unset', 'readonly']), collide=rng.choice([0, 0, 0, 2, 3]), second=rng.random() < 0.3)
        for place in ('user', 'global'):
            for k in range(4):
                for gz in (False, True):
                    if gz and k in (1, 2):      # name.gz.gz is never written
                        continue
                    if rng.random() < (0.3 if c['user_reg'] is not None or c['glob_reg'] is not None else 0.1):
                        c['files'].append([place, k, gz])
        yield c


def check(c):
    with Env(conf=False) as env:
        site = Site(c, env)
        mode = c['mode']
        conf = {'GEOPOTENTIALS': env.geo}
        if c['perm'] != 'unset':
            conf['INTERTABLES'] = env.user
        env.conf(conf)
        entry = lambda k: {'filename': NAMES[k], 'method': mode, 'source_shape': [20], 'target_shape': [c['rows'], c['cols']]}
        tid = site.table_id(mode)
        other = {'Iother_grid_xscipy_nearest': {'filename': 'other.npy', 'method': 'nearest', 'source_shape': [1], 'target_shape': [1, 1]}}
        user_reg = dict(other)
        if c['user_reg'] is not None:
            user_reg[tid] = entry(c['user_reg'])
        env.intertables(user_reg)
        if c['glob_reg'] is not None:
            env.jdump(os.path.join(env.gconf, 'intertables.json'), {tid: entry(c['glob_reg'])})
        dirs = {'user': env.user, 'global': env.glob}
        rng = random.Random(c['seed'])
        tables = {}
        for place, k, gz in c['files']:
            if place == 'user' and c['perm'] in ('missing', 'unset'):
                continue
            p = os.path.join(dirs[place], NAMES[k] + ('.gz' if gz else ''))
            tables[p] = find_table(rng, c, mode, 20)
            store(p, mode, tables[p])
        with open(os.path.join(env.user, 'unrelated.dat'), 'w') as f:
            f.write('x')
        if c['perm'] == 'missing':
            for f in os.listdir(env.user):
                os.unlink(os.path.join(env.user, f))
            os.rmdir(env.user)
        reg = c['user_reg'] if c['user_reg'] is not None else c['glob_reg']
        used = None
        if reg is not None:
            for place in ('user', 'global'):
                if place == 'user' and c['perm'] == 'unset':
                    continue
                for sfx in ('', '.gz'):
                    p = os.path.join(dirs[place], NAMES[reg] + sfx)
                    if used is None and p in tables:
                        used = p
        v, v2 = mk(c['v']), mk(c['v2'])

        def work():
            it = site.interpolator(mode, c['create'])
            before = snapshot(env.root, env.home)
            try:
                res = [site.run(it, mode, x.copy(), second=c['second']) for x in (v, v2)]
                o = ['ok', [[values_of(r), list(np.shape(r))] for r in res], float(it.mv_output)]
            except Exception as ex:
                o = ['raise', type(ex).__name__, getattr(ex, 'code', None), str(ex)[:300]]
            after = snapshot(env.root, env.home)
            ch = {p: ('new' if p not in before else 'deleted' if p not in after else 'changed') for p in set(before) | set(after) if before.get(p) != after.get(p)}
            return o, ch
        uid = None
        if c['perm'] == 'readonly':
            uid = 65534
            for r, ds, fs in os.walk(env.root):
                os.chmod(r, 0o755)
            os.chmod(os.environ['VC_SCRATCH'], 0o755)
            for d in (env.home, env.out, env.root):     # the command file and configuration stay writable, the tables folders do not
                os.chmod(d, 0o777)
            for d in (env.home, env.root):
                for f in os.listdir(d):
                    if os.path.isfile(os.path.join(d, f)):
                        os.chmod(os.path.join(d, f), 0o666)
        r = in_child(work, uid) if uid is not None else ['ok', work()]
        if r[0] != 'ok':
            raise RuntimeError(f'child failed: {r}')
        o, ch = r[1]
        what = f'{mode}, registered {reg}, stored {sorted(os.path.relpath(p, env.root) for p in tables)}, create={c["create"]}, user folder {c["perm"]}'
        if used is not None:
            if o[0] != 'ok':
                return f'{what}: the stored table {os.path.relpath(used, env.root)} was not used: {o[1:]}'
            if ch:
                return f'{what}: files touched although a table exists: {ch}'
            for x, (res, shape) in zip((v, v2), o[1]):
                cc = dict(c, table=tables[used])
                a = np.array([np.nan if e is None else e for e in res]).reshape(shape)
                bad = c07.compare(cc, c07.expected(cc, x), a, o[2])
                if bad:
                    return f'{what}: not interpolated with {os.path.relpath(used, env.root)}: {bad}'
            return None
        if not c['create'] or c['perm'] != 'ok':
            if o[0] == 'ok':
                return f'{what}: no usable table and none can be created, but a result was returned'
            if o[1] != 'ApplicationException':
                return f'{what}: {o[1:]}, expected an application error'
            if not c['create'] and str(o[2]) != '1800' and 'nterpolation table' not in o[3] and 'ntertable' not in o[3]:
                return f'{what}: {o[1:]}, expected the missing table to be reported'
            if ch:
                return f'{what}: files touched although interpolation failed: {ch}'
            return None
        if o[0] != 'ok':
            return f'{what}: creation requested but {o[1:]}'
        bad = created(env, ch, tid, dict(user_reg), what)
        if bad:
            return bad
        name = env.read_intertables()[tid]['filename']
        for k in range(c['collide']):
            # same file name again: the registry is lost, the table files stay
            env.intertables(other)
            if os.path.exists(os.path.join(env.gconf, 'intertables.json')):
                os.unlink(os.path.join(env.gconf, 'intertables.json'))
            o2, ch2 = work()
            if o2[0] != 'ok':
                return f'{what}: creation {k + 2} failed: {o2[1:]}'
            bad = created(env, ch2, tid, dict(other), f'{what}, creation {k + 2}')
            if bad:
                return bad
            for i, ((a, sa), (b, sb)) in enumerate(zip(o[1], o2[1])):
                if sa != sb or any((x is None) != (y is None) or (x is not None and not close(x, y, 1e-12, 1e-12)) for x, y in zip(a, b)):
                    return f'{what}, creation {k + 2}: result {i} differs from the first creation'
    return None


def created(env, ch, tid, reg, what):
    reg_file = os.path.join(env.home, 'intertables.json')
    rest = {p: k for p, k in ch.items() if p != reg_file}
    if list(rest.values()) != ['new']:
        return f'{what}: creating one table changed {ch}'
    p = list(rest)[0]
    if os.path.dirname(p) != env.user:
        return f'{what}: table written to {p}, not to the user folder'
    now = env.read_intertables()
    e = now.pop(tid, None)
    reg.pop(tid, None)
    if e is None:
        return f'{what}: the created table is not registered under {tid}: {now}'
    f = os.path.join(env.user, e['filename'])
    if p not in (f, f + '.gz'):
        return f'{what}: {e["filename"]} is registered, {p} was written'
    if now != reg:
        return f'{what}: other registry entries changed: {now}, before {reg}'
    return None
