"""C14: which messages are selected and what becomes of them."""
import datetime
from gribs import *

RULE = ('random GRIB files (short names, levels, dates, times, members, steps, two grids, bitmaps; also files that cannot be indexed), random criteria (value, list, tuple, condition, '
        'undefined key), one reader used several times, and whole runs (options on the command line and in JSON) up to the selected messages; non-trivial: at least one message is '
        'selected and one is not')
STEPS = [(0, 0), (0, 6), (6, 6), (6, 12), (0, 12), (12, 12), (12, 18), (18, 24), (24, 24), (24, 36)]


def crit(rng):
    c = {'shortName': rng.choice([('eq', '2t'), ('eq', 'tp'), ('in', ['2t', '2T', '2tvar']), ('in', ['tp', '2t']), ('tuple', ['z', 'fis']), ('in', ['z', 'tp'])])}
    for k, f in (('level', lambda: rng.choice([('eq', 0), ('eq', 2), ('in', [0, 2]), ('tuple', [10, 500]), ('ge', 5)])), ('dataTime', lambda: ('eq', rng.choice([0, 600, 1200]))),
                 ('dataDate', lambda: ('eq', rng.choice([20190101, 20181231]))), ('perturbationNumber', lambda: ('eq', rng.choice([0, 1, 2]))),
                 ('startStep', lambda: rng.choice([('eq', 0), ('eq', 6), ('ge', 6), ('ge', 12), ('ge', 0), ('ge', 30), ('in', [0, 12])])),
                 ('endStep', lambda: rng.choice([('eq', 12), ('le', 12), ('le', 24), ('le', 6), ('in', [6, 24]), ('between', [6, 18])])), ('noSuchKey', lambda: ('eq', 1))):
        if rng.random() < (0.04 if k == 'noSuchKey' else 0.13 if k == 'perturbationNumber' else 0.3):
            c[k] = f()
    return c


def cases(rng, tier):
    while True:
        if rng.random() < 0.75:
            shorts = rng.choice([['2t'], ['2t', 'tp'], ['2t', 'tp', 'z']])
            grids = rng.choice([[0], [0], [0, 1], [1, 0]])
            msgs = [message(rng, shorts, grids, STEPS) for _ in range(rng.choice([1, 3, 6, 10, 14]))]
            yield dict(kind='select', msgs=msgs, crits=[crit(rng) for _ in range(rng.randint(1, 3))], noindex=rng.random() < 0.15, info=rng.random() < 0.4, pert=rng.random() < 0.3)
        else:
            msgs = [message(rng, ['2t', '2t', 'tp'], [0], STEPS) for _ in range(rng.choice([3, 6, 10]))]
            yield dict(kind='run', msgs=msgs, **{k: rng.choice([None, None] + v) for k, v in dict(
                s=[0, 6, 12, 24], e=[0, 6, 12, 24, 36], T=[0, 1200], D=[20190101, 20181231], m=[0, 1, 2], js=[0, 6, '6', 12], je=[12, '24', 0], jT=[0, '1200', '0'], jD=['20190101', 20181231],
                jlevel=['2', '0', '10']).items()})


def check(c):
    with Env() as env:
        path = env.path('in.grib')
        build(path, c['msgs'])
        return select(c, env, path) if c['kind'] == 'select' else run(c, env, path)


def reader(path, c):
    """a reader of the file; with noindex, of a file that cannot be indexed"""
    from pyg2p.main.readers import grib
    old = grib.codes_index_new_from_file
    if c['noindex']:
        def fail(*a, **k):
            raise grib.GribInternalError('cannot be indexed')
        grib.codes_index_new_from_file = fail
    try:
        return grib.GRIBReader(path, w_perturb=c['pert'])
    finally:
        grib.codes_index_new_from_file = old


def applicable(sel):
    """distinct keys and at most two grids: the precondition of the property"""
    k = [mkey(m) for m in sel]
    return len(set(k)) == len(k) and len({m['Nj'] for m in sel}) <= 2


def expected(msgs, crit):
    sel = selected(msgs, crit)
    st = crit.get('startStep')
    if not sel and st and st[0] in ('ge', 'le', 'between') and not holds(st, 0):
        # documented: when no message starts late enough, those cumulated from the beginning are taken
        sel = selected(msgs, dict(crit, startStep=('ge', 0)))
    return sel


def select(c, env, path):
    from pyg2p.exceptions import ApplicationException, NO_MESSAGES
    msgs = independent(path)
    # with an index on the member number, messages are looked up by short name and member
    r = reader(path, c)
    try:
        first = None
        for cr in c['crits']:
            if c['pert'] and 'perturbationNumber' not in cr:
                cr = dict(cr, perturbationNumber=('eq', 1))
            if not c['pert'] and not c['noindex'] and 'perturbationNumber' in cr:
                cr = {k: v for k, v in cr.items() if k != 'perturbationNumber'}
            sel = expected(msgs, cr)
            if not applicable(sel):
                continue
            kw = {k: criterion(x) for k, x in cr.items()}
            what = f'{"file without index, " if c["noindex"] else ""}criteria {cr}'
            try:
                if c['info'] and sel:
                    r.get_grib_info({k: criterion(x) for k, x in cr.items()})
                m = r.select_messages(**kw)
            except ApplicationException as ex:
                if sel:
                    return f'{what}: unexpected {exc(ex)}; matching messages (start, end, size, level) {[mkey(x) for x in sel]}'
                if ex.code != NO_MESSAGES:
                    return f'{what}: error {ex.code}, expected the one for no messages'
                continue
            except Exception as ex:
                return f'{what}: unexpected {exc(ex)}; {len(sel)} matching messages'
            if not sel:
                return f'{what}: {len(m)} messages selected, none matches'
            if 'noindex' in c and c['noindex']:
                # file order
                ids = {id(x) for x in sel}
                sel = [x for x in msgs if id(x) in ids]
            bad = compare(m.first_resolution_values(), m.second_resolution_values(), sel, what)
            if bad:
                return bad
            bad = about(m, sel, what)
            if bad:
                return bad
    finally:
        r.close()
    return None


def about(m, sel, what):
    f = sel[0]
    if not close(float(m.missing_value), f['__missing']):
        return f'{what}: missing value {m.missing_value}, the first message has {f["__missing"]}'
    if m.step_units != f['__stepUnits']:
        return f'{what}: step units {m.step_units!r}, the first message has {f["__stepUnits"]!r}'
    d = datetime.datetime.strptime('%08d%04d' % (f['dataDate'], f['dataTime']), '%Y%m%d%H%M')
    if m.data_date != d:
        return f'{what}: data date {m.data_date}, the first message has {d}'
    lat, lon = m.latlons
    if len(lat) != len(f['__lat']) or any(not close(a, b) for a, b in zip(lat, f['__lat'])) or any(not close(a, b) for a, b in zip(lon, f['__lon'])):
        return f'{what}: coordinates are not those of the first message'
    two = any(x['Nj'] != f['Nj'] for x in sel)
    if m.have_resolution_change() != two:
        return f'{what}: change of resolution {m.have_resolution_change()}, messages have {sorted({x["Nj"] for x in sel})} points along the meridian'
    if two:
        s = [x for x in sel if x['Nj'] != f['Nj']]
        st = m.change_resolution_step()
        if (int(st.start_step), int(st.end_step), int(st.resolution), int(st.level)) not in [mkey(x) for x in s] or int(st.start_step) != min(x['startStep'] for x in s):
            return f'{what}: resolution changes at {st}, second resolution messages {[mkey(x) for x in s]}'
        lat, lon = m.latlons_2nd
        if len(lat) != len(s[0]['__lat']) or any(not close(a, b) for a, b in zip(lat, s[0]['__lat'])):
            return f'{what}: coordinates of the second resolution are not those of its first message'
    return None


def run(c, env, path):
    from pyg2p.exceptions import ApplicationException, NO_MESSAGES
    env.maps([[50.0, 49.0]], [[5.0, 6.0]])
    J = {f'@{k}': c[j] for k, j in (('tstart', 'js'), ('tend', 'je'), ('dataTime', 'jT'), ('dataDate', 'jD'), ('level', 'jlevel')) if c[j] is not None}
    env.command(param=J)
    args = []
    for k in 'seTDm':
        if c[k] is not None:
            args += [f'-{k}', str(c[k])]
    num = lambda a, b: a if a is not None else int(b) if b is not None else None
    s, e, T, D = num(c['s'], c['js']), num(c['e'], c['je']), num(c['T'], c['jT']), num(c['D'], c['jD'])
    if s is not None and e is not None and s > e:
        return None
    msgs = independent(path)
    names = ['2t', '2T', '2tvar']
    crit = {'shortName': ('in', names)}
    base = [m for m in msgs if m['shortName'] == '2t' and (c['m'] is None or m.get('perturbationNumber') == c['m'])]
    if c['m'] is not None:
        crit['perturbationNumber'] = ('eq', c['m'])
    for k, x in (('dataTime', T), ('dataDate', D), ('level', None if c['jlevel'] is None else int(c['jlevel']))):
        if x is not None:
            crit[k] = ('eq', x)
    # without an end, the last step of the parameter
    last = e if e is not None else max([m['endStep'] for m in base], default=0)
    first = s or 0
    if first == last:
        crit.update(startStep=('eq', first), endStep=('eq', last))
    else:
        crit.update(startStep=('ge', first), endStep=('le', last))
    sel = expected(msgs, crit) if base else []
    if not applicable(sel):
        return None
    what = f'run with {" ".join(args)} and JSON {J}'
    from pyg2p.main.controller import Controller
    ctrl = None
    try:
        try:
            ctx = env.context(args)
            ctrl = Controller(ctx)
            values, messages, _ = ctrl.execute(write_results=False)
        except ApplicationException as ex:
            if sel:
                return f'{what}: unexpected {exc(ex)}; matching messages (start, end, size, level) {[mkey(x) for x in sel]}'
            return None if ex.code == NO_MESSAGES else f'{what}: error {ex.code}, expected the one for no messages'
        except Exception as ex:
            return f'{what}: unexpected {exc(ex)}; {len(sel)} matching messages'
        if not sel:
            return f'{what}: {len(values)} messages processed, none matches'
        return compare(values, {}, sel, what)
    finally:
        if ctrl is not None:
            ctrl.close()
