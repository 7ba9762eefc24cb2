"""C20 contracts: ExecutionContext (Context._check_exec_params, _define_exec_params, _define_input_args, ParserHelpOnError) refuses exactly the invalid configurations, each with its error."""
from contracts.conf import *

ASSUMPTIONS = [
    'argparse: an option present has the (converted) value given; unknown options, values that are no number and values outside the choices end in error() (contract in contracts/conf.py)',
    'ujson.load gives the attributes of the command file, which has the mandatory ones; user variables by contract (C22); the output folder exists or can be created',
    'any subset of the faults of a group occurs together (files; numbers and steps; correction, parameter and conversion; command line); texts of level and unitTime have no blanks, signs or underscores',
]


def codes(L):
    return L.load('pyg2p.exceptions')


def refuse(e, C, argv, bad, more=()):
    """bad: (error code, condition) list; the context is refused exactly when one holds and with the code of one that holds"""
    e.cover('pre')
    ctx, ex = call(C.ExecutionContext, Argv(argv))
    some = zor(*[b for _, b in bad])
    if ex is None:
        e.prove('an invalid configuration is refused', znot(some), f'accepted; {[(c, str(b)[:60]) for c, b in bad]}')
        e.cover('accepted')
        return ctx
    X = codes(e.state['loader'])
    e.prove('a refusal is an application error', isinstance(ex, X.ApplicationException), extxt(ex))
    if isinstance(ex, X.ApplicationException):
        e.prove('a valid configuration is never refused', some, extxt(ex))
        e.prove('the error is the one of what is wrong', zor(*[zand(b, T if c == getattr(ex, 'code', None) else F) for c, b in bad]), f'{getattr(ex, "code", None)} {extxt(ex)}')
    e.prove('a refused run writes nothing', not fs().writes and not [x for x in fs().log if x[0] not in ('mkdir', 'read')], str(fs().log))
    e.cover('refused')
    return None


def nofile(p):
    return znot(fs().isfile0(world.term(p)))


def base(e):
    e.assume(fs().isdir0(world.term('/out/')))
    return {'-c': Token(CMD, 'str'), '-i': Token(IN, 'str'), '-o': Token('/out/', 'str')}


def files(e):
    """any of the files is missing (nothing is assumed about which exist), for any valid mode"""
    mode = O.MODES[e.choose(len(O.MODES))]
    corr = bool(e.choose(2))
    secs = dict(Interpolation=[('@mode', mode)])
    if corr:
        secs['Parameter'] = [('@correctionFormula', 'p+gem-dem'), ('@gem', 'z'), ('@demMap', DEM)]
    L, C = conf_world(e, document(secs))
    argv = base(e)
    bad = [(0, nofile(CMD)), (1000, nofile(IN)), (1300, zor(nofile(LAT), nofile(LON))), (1310, nofile(CLONE))]
    if e.choose(2):
        argv['-I'] = Token(IN2, 'str')
        bad.append((1000, nofile(IN2)))
    if corr:
        bad.append((4300, nofile(DEM)))
    ctx = refuse(e, C, argv, bad)
    if ctx is not None:
        e.prove('correction is done exactly when configured', truth(ctx.must_do_correction) == (T if corr else F))


def outdir(e):
    """any output folder, existing or not"""
    L, C = conf_world(e, document({}))
    exists(e, CMD, IN, CLONE, LAT, LON)
    d = ('./', '/o', '/o/', '/o/p')[e.choose(4)]
    argv = {'-c': Token(CMD, 'str'), '-i': Token(IN, 'str')}
    if d != './' or e.choose(2):
        argv['-o'] = Token(d, 'str')
    t = world.term(d if d.endswith('/') else d + '/')
    e.assume(znot(fs().isfile0(t)))
    e.assume(fs().exists0(t) == fs().isdir0(t))
    ctx = refuse(e, C, argv, [])
    if ctx is not None and d != './':
        e.prove('the output folder exists when the run starts', zb(fs().isdir(ctx.get('outMaps.outDir'))))
        e.prove('the output folder is the one given', zb(SStr.of(ctx.get('outMaps.outDir')).t == t))


def isnum(s):
    return zb(s.isdigit())


def numbers(e):
    """level, unitTime, first and last step, member given in any way"""
    secs = dict(Parameter=[], OutMaps=[])
    bad = []
    argv = base(e)
    want = {}
    k = e.choose(5)
    if k == 1:
        v = sint_(e, 'level')
        secs['Parameter'].append(('@level', v))
        bad.append((1400, v.t < 0))
        want['parameter.level'] = v
    elif k == 2:
        v = SStr(e.fresh(world.S, 'level text'))
        e.assume(z3.Length(v.t) > 0)
        secs['Parameter'].append(('@level', v))
        bad.append((1400, znot(isnum(v))))
        want['parameter.level'] = SInt(z3.StrToInt(v.t))
    elif k == 3:
        secs['Parameter'].append(('@level', ''))
    elif k == 4:
        secs['Parameter'].append(('@level', None))
    k = e.choose(4)
    if k == 1:
        v = sint_(e, 'unitTime')
        e.assume(v.t >= 1)
        secs['OutMaps'].append(('@unitTime', v))
    elif k == 2:
        v = SStr(e.fresh(world.S, 'unitTime text'))
        e.assume(z3.Length(v.t) > 0)
        secs['OutMaps'].append(('@unitTime', v))
        bad.append((1400, znot(isnum(v))))
    elif k == 3:
        secs['OutMaps'].append(('@unitTime', ''))
        bad.append((1400, T))
    ab = []
    for n, (att, fl) in enumerate((('@tstart', '-s'), ('@tend', '-e'))):
        v = None
        m = e.choose(4)
        if m & 1:
            v = sint_(e, 'json ' + att)
            secs['Parameter'].append((att, v))
        if m & 2:
            v = sint_(e, 'cli ' + att)
            argv[fl] = Token(v, 'int')
        if v is not None:
            e.assume(v.t >= 0)
        ab.append(v)
    if None not in ab:
        bad.append((1500, znot(ab[0].t <= ab[1].t)))
    L, C = conf_world(e, document(secs))
    exists(e, CMD, IN, CLONE, LAT, LON)
    ctx = refuse(e, C, argv, bad)
    if ctx is not None:
        lv = ctx.get('parameter.level')
        e.prove('a level is the number given', denotes(lv, want.get('parameter.level'), 'int'), repr(lv))


def mode(e):
    m = SStr(e.fresh(world.S, 'mode'))
    L, C = conf_world(e, document(dict(Interpolation=[('@mode', m)])))
    exists(e, CMD, IN, CLONE, LAT, LON)
    refuse(e, C, base(e), [(8400, zand(*[znot(m.t == z3.StringVal(x)) for x in O.MODES]))])


def correction(e):
    """every combination of correction attributes: absent, empty, given"""
    atts, n = [], 0
    for a, v in (('@correctionFormula', None), ('@gem', None), ('@demMap', DEM)):
        k = e.choose(4)
        if k == 3:
            if v is None:
                v = SStr(e.fresh(world.S, a))
                e.assume(z3.Length(v.t) > 0)
            atts.append((a, v))
            n += 1
        elif k:
            atts.append((a, ('', None)[k - 1]))
    L, C = conf_world(e, document(dict(Parameter=atts)))
    exists(e, CMD, IN, CLONE, LAT, LON)
    bad = [(4300, nofile(DEM))] if n == 3 else [(4100, T)] if n else []
    ctx = refuse(e, C, base(e), bad)
    if ctx is not None:
        e.prove('correction is done exactly when configured', truth(ctx.must_do_correction) == (T if n == 3 else F))


def truth(x):
    return zb(x) if isinstance(x, (SBool, bool)) else (T if x else F)


def catalogue(e):
    """short name and conversion known or not: real ParametersConfiguration.get and get_conversion"""
    L, C = conf_world(e, None)
    cfg = L.load('pyg2p.main.config')
    convs = []
    n = e.choose(4)
    k = 1 if n == 3 else n
    for i in range(k):
        convs.append(VDict([('@id', SStr(e.fresh(world.S, f'id{i}'))), ('@function', f'x=x+{i}'), ('@unit', f'u{i}')]))
    par = [('@shortName', '2t'), ('@description', 'temp'), ('@unit', 'K')]
    if n == 3:
        par.append(('Conversion', convs[0]))
    elif n:
        par.append(('Conversion', convs))
    known = SStr(e.fresh(world.S, 'known'))
    pc = cfg.ParametersConfiguration.__new__(cfg.ParametersConfiguration)
    pc.vars = VDict([(known, VDict(par))])
    e.state['param_get'] = pc.get
    e.state['conv_get'] = pc.get_conversion
    name = SStr(e.fresh(world.S, 'shortName'))
    secs = {}
    conv = None
    if e.choose(2):
        conv = SStr(e.fresh(world.S, 'conversion'))
        e.assume(z3.Length(conv.t) > 0)
        secs['Parameter'] = [('@applyConversion', conv)]
    e.state['doc'] = document(secs)
    e.state['doc']['Execution']['Parameter']['@shortName'] = name
    exists(e, CMD, IN, CLONE, LAT, LON)
    unknown = znot(name.t == known.t)
    bad = [(1100, unknown)]
    if conv is not None:
        bad.append((1200, zand(*[znot(conv.t == c['@id'].t) for c in convs])))
    ctx = refuse(e, C, base(e), bad)
    if ctx is not None:
        e.prove('conversion is done exactly when configured', truth(ctx.must_do_conversion) == (T if conv is not None else F))
        if conv is not None:
            f = SStr.of(ctx.get('parameter.conversionFunction')).t
            prior = T
            for i, c in enumerate(convs):
                e.prove('the conversion is the one with the identifier given', zimp(zand(prior, conv.t == c['@id'].t), zand(f == z3.StringVal(f'x=x+{i}'), SStr.of(ctx.get('parameter.conversionUnit')).t == z3.StringVal(f'u{i}'))))
                prior = zand(prior, znot(conv.t == c['@id'].t))
        else:
            e.prove('without conversion the unit is the one of the parameter', zb(ctx.get('parameter.conversionUnit') == 'K'))


def cli(e):
    """command line errors: nothing given, -i or -c not given, wrong values, unknown options"""
    L, C = conf_world(e, document({}))
    exists(e, CMD, IN, CLONE, LAT, LON)
    argv = base(e)
    bad = []
    k = e.choose(4)
    if k == 1:
        argv = {}
        bad.append((10000, T))
    elif k == 2:
        del argv['-i']
        bad.append((1001, T))
    elif k == 3:
        del argv['-c']
        bad.append((0, T))
    if k != 1:
        if e.choose(2):
            argv['-A'] = None
        i = e.choose(9)
        if 1 <= i <= 6:
            fl = ('-s', '-e', '-m', '-D', '-f', '-x')[i - 1]
            argv[fl] = Token('abc', 'word')
            bad.append((10000, T))
        elif i == 7:
            argv['--nosuch'] = None
            bad.append((10000, T))
        elif i == 8:
            v = sint_(e, 'dataTime')
            argv['-T'] = Token(v, 'int')
            bad.append((10000, znot(zor(v.t == 0, v.t == 1200))))
        j = e.choose(3)
        if j:
            fl, ok = (('-F', ('netcdf', 'pcraster', 'notset')), ('-l', ('ERROR', 'WARNING', 'INFO', 'DEBUG')))[j - 1]
            v = SStr(e.fresh(world.S, 'choice'))
            e.assume(z3.Length(v.t) > 0)
            argv[fl] = Token(v, 'str')
            bad.append((10000, zand(*[znot(v.t == z3.StringVal(x)) for x in ok])))
    refuse(e, C, argv, bad)


def addgeo(e):
    """adding a geopotential: its file has to exist, nothing else is needed"""
    L, C = conf_world(e, document({}))
    argv = {'-g': Token('/in/geo.grb', 'str')}
    for f in ('-W', '-K', '-i'):
        if f == '-i' and e.choose(2):
            argv[f] = Token(IN, 'str')
    ctx = refuse(e, C, argv, [(7001, nofile('/in/geo.grb'))])
    if ctx is not None:
        e.prove('a configuration command', zand(truth(ctx.is_config_command), truth(ctx.to_add_geopotential)))


def commands(e):
    """-W and -K need no input file"""
    L, C = conf_world(e, document({}))
    k = e.choose(3)
    argv = {0: {'-W': Token('geopotentials', 'str')}, 1: {'-W': Token('intertables', 'str')}, 2: {'-K': None}}[k]
    ctx = refuse(e, C, argv, [])
    if ctx is not None:
        e.prove('a configuration command', truth(ctx.is_config_command))


def vcs(tier):
    return [dict(name=n, harness=h, covers=c) for n, h, c in (
        ('missing files', files, ['accepted', 'refused']), ('output folder', outdir, ['accepted']), ('numbers and steps', numbers, ['accepted', 'refused']), ('mode', mode, ['accepted', 'refused']),
        ('correction', correction, ['accepted', 'refused']), ('short name and conversion', catalogue, ['accepted', 'refused']), ('command line', cli, ['accepted', 'refused']),
        ('add geopotential', addgeo, ['accepted', 'refused']), ('other commands', commands, ['accepted']))]
