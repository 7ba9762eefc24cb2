"""C21 contracts: pyg2p_exe, execute and config_command; closing by Controller, OutputWriter and GRIBReader after success and after a failure at any stage."""
from contracts.grb import *
from pyvc.runtime import ModelModule
from pyvc.containers import ISeq
from contracts.conf import Opaque

ASSUMPTIONS = [
    'the stages are stand-ins that complete, raise an application error with any code, or raise another exception (at most one of them fails in a run); closing itself does not fail',
    'an exception that is no application error may end the program by propagating (the interpreter then exits with a non-zero code)',
]
NO_MESSAGES = 3000


class Other(Exception):
    pass


def program(e):
    L = loader()
    e.state['open'] = world.open_
    M = L.load('pyg2p.main')
    X = L.load('pyg2p.exceptions')
    return L, M, X


def fail(e, X, how):
    """how: 0 completes, 1 application error with any code, 2 another exception"""
    if how == 1:
        code = sint_(e, 'code')
        e.state['code'] = code
        raise X.ApplicationException(None, code, 'message')
    if how == 2:
        raise Other('failed')


def codes(e):
    """one harness for the whole program"""
    L, M, X = program(e)
    stage = ('none', 'context', 'command', 'controller', 'log', 'execute')[e.choose(6)]
    how = 0 if stage == 'none' else 1 + e.choose(2)
    config = stage == 'command' or (stage == 'none' and e.choose(2) == 1)
    asked = 1 + e.choose(7) if config else 0
    log = []

    def at(s):
        log.append(s)
        if s == stage:
            fail(e, X, how)

    class Conf:
        def download_data(self, d):
            e.prove('the data set downloaded is the one asked for', d == 'intertables')
            log.append('W')
            at('command')

        def add_geopotential(self, g):
            e.prove('the geopotential added is the one given', g == '/in/z.grb')
            log.append('g')
            at('command')

        def check_conf(self):
            log.append('K')
            at('command')

        def __getattr__(self, n):
            raise Unsupported(f'no contract for configuration.{n}')

    class ExecutionContext:
        def __init__(self, args):
            log.append(('args', args))
            at('context')
            self.is_config_command = config
            self.to_download_conf = bool(asked & 1)
            self.to_add_geopotential = bool(asked & 2)
            self.to_check_conf = bool(asked & 4)
            self.configuration = Conf()
            self._vars = {'logger.level': 'ERROR', 'download_configuration': 'intertables' if asked & 1 else None, 'geopotential': '/in/z.grb' if asked & 2 else None, 'check_conf': bool(asked & 4)}

        def get(self, k, d=None):
            return self._vars.get(k, d)

        def __getitem__(self, k):
            return self._vars[k]

    class Controller:
        def __init__(self, ctx):
            at('controller')
            log.append('opened')

        def log_execution_context(self):
            at('log')

        def execute(self):
            log.append('ran')
            at('execute')

        def close(self):
            log.append('closed')
    M.ExecutionContext, M.Controller = ExecutionContext, Controller
    argv = ['-c', 'x', '-i', 'y']
    e.cover('pre')
    e.cover('fails at ' + stage)
    r, ex = call(M.pyg2p_exe, *argv) if e.choose(2) else call(M.pyg2p_exe, list(argv))
    e.prove('the arguments reach the configuration as given', [list(x[1]) for x in log if isinstance(x, tuple)] == [argv], str(log))
    if how == 0:
        e.prove('a run that completes ends with 0', ex is None and zb(r == 0), f'{r} {extxt(ex)}')
    elif how == 1:
        nomsg = e.state['code'].t == NO_MESSAGES
        e.prove('an application error is reported by the exit code', ex is None and r is not None, extxt(ex))
        if ex is None and r is not None:
            if stage in ('controller', 'log', 'execute'):
                e.prove('0 exactly when no message matches, non-zero for every other application error', zb(r == 0) == nomsg, f'{r}')
            else:
                e.prove('non-zero for an application error', znot(zb(r == 0)), f'{r}')
    else:
        e.prove('another failure does not end with 0', ex is not None or (r is not None and znot(zb(r == 0))), f'{r} {extxt(ex)}')
    if config and stage != 'context':
        done = [x for x in log if x in ('W', 'g', 'K')]
        e.prove('exactly one of the commands asked for is run, and no execution', len(done) == 1 and bool(asked & {'W': 1, 'g': 2, 'K': 4}[done[0]]) and 'ran' not in log, str(log))
    elif stage != 'context':
        e.prove('no configuration command is run', not [x for x in log if x in ('W', 'g', 'K')], str(log))
    if 'opened' in log:
        e.prove('the controller is closed once, at the end', log.count('closed') == 1 and log[-1] == 'closed', str(log))
    if stage in ('none',) and not config:
        e.prove('the run is executed once', log.count('ran') == 1, str(log))
    e.cover('post')


class Res:
    """something that has to be closed"""


def closing(e):
    """Controller.execute failing at any stage, then Controller.close: whatever was opened is closed exactly once"""
    L, M, X = program(e)
    CT = L.load('pyg2p.main.controller')
    opened = []
    stages = ['none', 'open', 'info', 'writer', 'select', 'open2', 'select2', 'append', 'aux', 'convert', 'aggregator', 'range', 'change', 'aggregate', 'aggregate2', 'cut', 'write']
    stage = stages[e.choose(len(stages))]
    two, agg, conv, corr, meth = bool(e.choose(2)), bool(e.choose(2)), bool(e.choose(2)), bool(e.choose(2)), bool(e.choose(2))
    how = 1 if stage == 'none' else 1 + e.choose(2)
    P = L.load('pyg2p')

    def at(s):
        if s == stage:
            fail(e, X, how)

    class Closing:
        def __init__(self):
            self.closed = 0
            opened.append(self)

        def close(self):
            self.closed += 1

    class Reader(Closing):
        def __init__(self, path, w_perturb=False):
            self.second = path == '/in/2'
            at('open2' if self.second else 'open')
            Closing.__init__(self)

        def get_grib_info(self, sel):
            at('info')
            return Opaque(end=24, input_step=6, mv=9999, type_of_param='instant')

        def has_geopotential(self):
            return meth

        def select_messages(self, **k):
            at('select2' if self.second else 'select')
            return Messages()

        def set_2nd_aux(self, a):
            pass

        def get_main_aux(self):
            return ('g', 'v')

        def get_gids_for_grib_intertable(self):
            at('aux')
            return 'g', 'v', 'g2', 'v2'

    def step(a, b, r):
        return P.Step(a, b, r, 6, 0)

    class Messages:
        step_type = 'instant'

        def append_2nd_res_messages(self, m):
            at('append')

        def apply_conversion(self, c):
            at('convert')

        def first_resolution_values(self):
            return {step(0, 6, 10): 'a', step(6, 12, 10): 'b'}

        def second_resolution_values(self):
            return {step(12, 18, 10): 'c', step(18, 24, 10): 'd'}

        def have_resolution_change(self):
            return two

        def change_resolution_step(self):
            return step(12, 18, 10)

    class Aggregator:
        n = 0

        def __init__(self, **k):
            Aggregator.n += 1
            self.second = Aggregator.n > 1
            at('aggregator')

        def get_real_start_end_steps(self):
            at('range')
            return 0, 24

        def change_end_step(self, s):
            at('change')

        def do_manipulation(self, v):
            at('aggregate2' if self.second else 'aggregate')
            return dict(v)

    class Converter:
        must_cut_off = True

        def __init__(self, func=None, cut_off=None):
            pass

        def cut_off_negative(self, v):
            at('cut')
            return v

    class Writer(Closing):
        def __init__(self, ctx, info):
            at('writer')
            Closing.__init__(self)

        def aux_for_intertable_generation(self, *a):
            pass

        def write_maps(self, v, m, change_res_step=None):
            opened.append('written')
            at('write')
    CT.GRIBReader, CT.OutputWriter, CT.Aggregator, CT.Converter = Reader, Writer, Aggregator, Converter
    CX = L.load('pyg2p.main.context')
    ctx = CX.Context.__new__(CX.Context)
    ctx.input_file_with_geopotential = None
    ctx._vars = {'logger.level': 'ERROR', 'input.file': '/in/1', 'input.file2': '/in/2', 'input.two_resolution': two, 'parameter.tstart': None, 'parameter.tend': 48 if e.choose(2) else None,
                 'execution.doAggregation': agg, 'execution.doConversion': conv, 'execution.doCorrection': corr, 'aggregation.step': 6, 'aggregation.type': 'average', 'aggregation.halfweights': False,
                 'aggregation.forceZeroArray': False, 'outMaps.unitTime': 24, 'interpolation.mode': 'grib_nearest' if meth else 'nearest', 'parameter.conversionFunction': 'x=x', 'parameter.cutoffnegative': True,
                 'parameter.shortName': '2t', 'parameter.level': None, 'parameter.dataTime': None, 'parameter.dataDate': None, 'parameter.perturbationNumber': None}
    c = CT.Controller(ctx)
    e.cover('pre')
    _, ex = call(c.execute)
    res = [x for x in opened if isinstance(x, Closing)]
    if ex is None:
        e.prove('a run that completes has written', opened.count('written') == 1)
        e.cover('completes')
    else:
        e.prove('a run that does not fail in a stage completes', stage != 'none' and isinstance(ex, (X.ApplicationException, Other)), extxt(ex))
        e.cover('fails')
    _, ex = call(c.close)
    e.prove('closing does not fail', ex is None, extxt(ex))
    e.prove('whatever was opened is closed, once', all(x.closed == 1 for x in res), str([(type(x).__name__, x.closed) for x in res]))
    e.cover('post')


def writers(e):
    """OutputWriter.close and the file writers' own close, before and after anything was written"""
    L = loader()
    e.state['open'] = world.open_
    P = L.load('pyg2p')
    W = L.load('pyg2p.main.writers')
    N = L.load('pyg2p.main.writers.netcdf')
    R_ = L.load('pyg2p.main.writers.pcr')
    n = []

    class File:
        def close(self):
            n.append(1)
    w = W.OutputWriter.__new__(W.OutputWriter)
    k = e.choose(3)
    if k == 0:
        f = R_.PCRasterWriter.__new__(R_.PCRasterWriter)
    else:
        f = N.NetCDFWriter.__new__(N.NetCDFWriter)
        f.nf = File() if k == 2 else None
        f.filepath = '/out/x.nc'
    P.Loggable.__init__(f)
    w.writer = f
    e.cover('pre')
    _, ex = call(w.close)
    e.prove('closing does not fail', ex is None, extxt(ex))
    e.prove('an open netCDF file is closed', len(n) == (1 if k == 2 else 0))
    e.cover('post')


def reader(e):
    """GRIBReader.close: selected messages, index and file are released, once"""
    lib = grb_world(e, cannot_index=bool(e.choose(2)))
    r = lib.r
    closed = []
    if r._file_handler is not None:
        r._file_handler.close = lambda: closed.append(1)
    had_file = r._file_handler is not None
    k = e.choose(5)
    gids = [Gid(e.fresh(Z, f'message{i}')) for i in range(k)]
    r._selected_grbs = list(gids)
    e.cover('pre')
    _, ex = call(r.close)
    e.prove('closing does not fail', ex is None, extxt(ex))
    e.prove('every selected message is released, once', sorted(map(id, lib.released)) == sorted(map(id, gids)), str(len(lib.released)))
    if lib.index is not None:
        e.prove('the index is released', lib.index.released is True)
        e.cover('index')
    e.prove('an open file is closed', len(closed) == (1 if had_file else 0))
    e.cover('post')


def vcs(tier):
    return [dict(name='exit codes', harness=codes, covers=['pre', 'post'] + ['fails at ' + s for s in ('none', 'context', 'command', 'controller', 'log', 'execute')]),
            dict(name='closing', harness=closing, covers=['pre', 'post', 'completes', 'fails']),
            dict(name='writers', harness=writers, covers=['pre', 'post']),
            dict(name='reader', harness=reader, covers=['pre', 'post', 'index'])]
