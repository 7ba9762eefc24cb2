"""C19 contracts: ExecutionContext._define_input_args / _define_exec_params / _check_exec_params give every option its value."""
from contracts.conf import *

ASSUMPTIONS = [
    'argparse: an option present on the command line has the (converted) value given, an absent one its declared default; unknown options and bad values end in error() (contract in contracts/conf.py)',
    'ujson.load gives the attributes of the command file; user variables by contract (C22); all files of the configuration exist (C20)',
    'text options are not empty; dates, steps, members and map numbers are not negative; scale factors and ext are positive; JSON numbers are numbers; an option is given once',
    'any two options are varied together while all the others are absent or all given in both places (thorough: also all in JSON, all on the command line)',
]
BOTH = {o[0]: o for o in O.BOTH}
DIRS = {'interpolation.dirs': '/conf/intertables', 'geopotential.dirs': '/conf/geopotentials'}


def run(e, cli, js, agg=None, place='Interpolation', extra=()):
    """cli/js: effective name -> given value; returns (context, exception)"""
    secs = {}
    given = {'-c': Token(CMD, 'str'), '-i': Token(IN, 'str'), '-o': Token('/out/', 'str')}
    for k, fl, sec, att, kind, d in O.BOTH:
        if k in js:
            secs.setdefault(place if '|' in sec else sec, []).append((att, js[k]))
        if k in cli:
            given[fl[0]] = cli[k]
    for k, sec, att, kind, d in O.JSON:
        if k in js:
            secs.setdefault(sec, []).append((att, js[k]))
    for fl, v in extra:
        given[fl] = v
    if agg is not None:
        secs['Aggregation'] = agg
    L, C = conf_world(e, document(secs))
    exists(e, CMD, IN, CLONE, LAT, LON)
    e.assume(fs().isdir0(world.term('/out/')))
    a, b = (cli[k].val if k in cli else js.get(k) for k in ('parameter.tstart', 'parameter.tend'))
    if a is not None and b is not None:
        e.assume(zb(a <= b))
    e.cover('pre')
    return call(C.ExecutionContext, Argv(given))


def expect(e, ctx, k, cli, js, default, kind):
    want = cli[k] if k in cli else js.get(k, default)
    got = ctx.get(k)
    if kind == 'dir':
        got = got['user'] if got is not None else None
    e.prove(f'{k}: the command line value, else the JSON value, else the default', denotes(got, want, kind), f'{got!r} instead of {want!r}')


def check(e, ctx, ex, cli, js, keys=None):
    e.prove('a valid configuration is accepted', ex is None, extxt(ex))
    if ex is not None:
        return
    for k, fl, sec, att, kind, d in O.BOTH:
        if keys is None or k in keys:
            expect(e, ctx, k, cli, js, DIRS.get(k, '2t' if k == 'outMaps.namePrefix' else d), kind)
    for k, sec, att, kind, d in O.JSON:
        if keys is None or k in keys:
            expect(e, ctx, k, {}, js, d, kind)
    e.prove('input file and short name', zand(zb(ctx.get('input.file') == IN), zb(ctx.get('parameter.shortName') == '2t')))
    e.cover('post')


def pair(i, tier):
    def h(e):
        x = O.BOTH[i]
        rest = e.choose(4) if tier == 'thorough' else 3 * e.choose(2)     # how the other options are given: not, JSON, command line, both
        y = O.BOTH[(i + 1 + e.choose(len(O.BOTH) // 2)) % len(O.BOTH)]
        cli, js = {}, {}
        for o in O.BOTH:
            m = e.choose(4) if o in (x, y) else rest
            if m & 1:
                js[o[0]] = sval(e, o[4], 'json ' + o[0])
            if m & 2:
                cli[o[0]] = Token(sval(e, o[4] if o not in (x, y) else o[4], 'cli ' + o[0]), o[4]) if o[4] != 'format' or o in (x, y) else Token('netcdf', 'format')
        if 'outMaps.format' in js and x[0] != 'outMaps.format' and y[0] != 'outMaps.format':
            js['outMaps.format'] = 'netcdf'
        ctx, ex = run(e, cli, js, place=('Interpolation', 'Execution')[e.choose(2)] if x[0] in DIRS else 'Interpolation')
        check(e, ctx, ex, cli, js)
    return h


def jsononly(e):
    js = {}
    k = e.choose(len(O.JSON) + 2)
    for n, (key, sec, att, kind, d) in enumerate(O.JSON):
        if k == n or k == len(O.JSON):
            js[key] = sval(e, kind, key) if kind != 'mode' or k == n else 'invdist'
    ctx, ex = run(e, {}, js)
    check(e, ctx, ex, {}, js)


def clionly(e):
    extra = []
    want = {}
    for k, fl, kind, d in O.CLI:
        if e.choose(2):
            if kind == 'flag':
                extra.append((fl[0], None))
                want[k] = True
            else:
                v = sval(e, kind, k) if k != 'input.file2' else IN2
                extra.append((fl[0], Token(v, kind)))
                want[k] = v
        else:
            want[k] = d
    exists(e, IN2)
    ctx, ex = run(e, {}, {}, extra=extra)
    e.prove('a valid configuration is accepted', ex is None, extxt(ex))
    if ex is not None:
        return
    for k, fl, kind, d in O.CLI:
        e.prove(f'{k}: the command line value, else the default', denotes(ctx.get(k), want[k], kind), f'{ctx.get(k)!r} {want[k]!r}')
    e.prove('a second input file is used exactly when one is given', zb(ctx.is_2_input_files) == (T if want['input.file2'] else F))
    e.cover('post')


def longflags(e):
    """the long spelling of every option means the same"""
    L, C = conf_world(e, document({}))
    given = {'--commandsFile': Token(CMD, 'str'), '--inputFile': Token(IN, 'str'), '--outDir': Token('/out/', 'str')}
    cli = {}
    for k, fl, sec, att, kind, d in O.BOTH:
        cli[k] = Token(sval(e, kind, k), kind)
        given[fl[1]] = cli[k]
    exists(e, CMD, IN, CLONE, LAT, LON)
    e.assume(fs().isdir0(world.term('/out/')))
    e.assume(zb(cli['parameter.tstart'].val <= cli['parameter.tend'].val))
    e.cover('pre')
    ctx, ex = call(C.ExecutionContext, Argv(given))
    check(e, ctx, ex, cli, {})


def aggregation(e):
    step = sint_(e, 'step')
    e.assume(step.t >= 1)
    ty = ('average', 'accumulation', 'instantaneous')[e.choose(3)]
    agg = [('@step', step), ('@type', ty)]
    on = ('y', 'yes', 'true', 'True', True)
    off = ('false', 'no', '0', 'False', 'FALSE', 'NO', 'No', False)
    hw = [None, *on[2:], 'false', 'False', False][e.choose(7)]
    fz = [None, *on, *off][e.choose(14)]
    if hw is not None:
        agg.append(('@halfweights', hw))
    if fz is not None:
        agg.append(('@forceZeroArray', fz))
    some = bool(e.choose(2))
    ctx, ex = run(e, {}, {}, agg=agg if some else None)
    e.prove('a valid configuration is accepted', ex is None, extxt(ex))
    if ex is not None:
        return
    e.prove('aggregation is done exactly when configured', truth(ctx.must_do_aggregation) == (T if some else F))
    if some:
        e.prove('step and type of aggregation as configured', zand(zb(ctx.get('aggregation.step') == step), zb(ctx.get('aggregation.type') == ty)))
        e.prove('half weights exactly when switched on', truth(ctx.get('aggregation.halfweights')) == (T if hw in on and hw is not None else F))
        e.prove('a zero array is forced exactly when switched on for an accumulation', truth(ctx.get('aggregation.forceZeroArray')) == (T if fz in on and fz is not None and ty == 'accumulation' else F))
    e.cover('post')


def truth(x):
    return zb(x) if isinstance(x, (SBool, bool)) else (T if x else F)


def vcs(tier):
    out = [dict(name=f'options[{o[0]}]', harness=pair(i, tier), covers=['pre', 'post']) for i, o in enumerate(O.BOTH)]
    out += [dict(name=n, harness=h, covers=['pre', 'post']) for n, h in (('json only', jsononly), ('command line only', clionly), ('long spelling', longflags), ('aggregation', aggregation))]
    return out
