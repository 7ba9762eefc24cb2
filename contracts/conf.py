"""Shared world of the configuration properties: argparse, JSON command file and configuration classes by contract."""
from contracts.interp import *
from contracts import options as O
from pyvc.runtime import ModelModule
from pyvc.syms import SStr, tostr

CMD, CLONE, DEM, IN, IN2 = '/c/cmd.json', '/m/clone.map', '/m/dem.map', '/in/a.grib', '/in/b.grib'


class Token:
    """one option value on the command line: the text of val"""

    def __init__(self, val, kind):
        self.val, self.kind = val, kind

    @property
    def text(self):
        return self.val if isinstance(self.val, (str, SStr)) else tostr(self.val)


class Argv:
    """argument vector: option -> Token (None for flags)"""

    def __init__(self, given):
        self.given = given

    def __len__(self):
        return len(self.given)

    def length(self):
        return len(self.given)

    def __contains__(self, x):
        return x in self.given

    def contains(self, x):
        return x in self.given

    def __getattr__(self, n):
        raise Unsupported(f'argument vector: {n}')


class Namespace:
    pass


def make_argparse(loader_):
    class ArgumentParser:
        def __init__(self, *a, **k):
            if set(k) - {'description', 'prog', 'usage', 'epilog', 'formatter_class'} or a:
                raise Unsupported(f'ArgumentParser options {k}')
            self.opts = []

        def print_help(self, *a):
            pass
        print_usage = print_help

        def add_argument(self, *flags, **k):
            if any(not f.startswith('-') for f in flags) or set(k) - {'help', 'metavar', 'type', 'default', 'choices', 'action', 'dest', 'required'}:
                raise Unsupported(f'argument {flags} {k}')
            long = [f for f in flags if f.startswith('--')]
            k['dest'] = k.get('dest') or (long or flags)[0].lstrip('-').replace('-', '_')
            self.opts.append((flags, k))

        def __getattr__(self, n):
            if n.startswith('__'):
                raise AttributeError(n)
            raise Unsupported(f'ArgumentParser.{n}')

        def parse_args(self, argv):
            if not isinstance(argv, Argv):
                raise Unsupported('argument vector')
            ns = Namespace()
            left = set(argv.given)
            for flags, k in self.opts:
                d = k.get('default')
                act = k.get('action', 'store')
                ty = k.get('type')
                if act == 'store_true':
                    d = k.get('default', False)
                elif act != 'store':
                    raise Unsupported(f'action {act}')
                if isinstance(d, str) and ty is not None:
                    d = ty(d)
                on = [f for f in flags if f in argv.given]
                left -= set(on)
                v = d
                if on:
                    if len(on) > 1:
                        raise Unsupported('option given twice')
                    tok = argv.given[on[0]]
                    if act == 'store_true':
                        v = True
                    else:
                        v = self.convert(flags, tok, ty, k.get('choices'))
                elif k.get('required'):
                    self.error('required')
                setattr(ns, k['dest'], v)
            if left:
                self.error('unrecognized arguments')
            return ns

        def convert(self, flags, tok, ty, choices):
            name = getattr(ty, '__name__', None)
            if ty is None or name == 'str':
                v = tok.text
            elif name in ('int', 'v_int'):
                if tok.kind not in ('int', 'posint', 'time'):
                    self.error(f'argument {flags}: invalid int value')
                v = tok.val
            elif name in ('float', 'v_float'):
                if tok.kind not in ('int', 'posint', 'time', 'num', 'posnum'):
                    self.error(f'argument {flags}: invalid float value')
                v = tok.val if isinstance(tok.val, SReal) else SReal(z3.ToReal(tok.val.t))
            else:
                raise Unsupported(f'argument type {ty}')
            if choices is not None:
                ok = zor(*[zb(v == c) for c in choices])
                if eng().branch(znot(ok)):
                    self.error(f'argument {flags}: invalid choice')
            return v

        def error(self, message):
            raise SystemExit(2)
    return ModelModule('argparse', dict(ArgumentParser=ArgumentParser, SUPPRESS='==SUPPRESS=='))


class Opaque:
    """stand-in: whatever has no contract here is not supported"""

    def __init__(self, **k):
        self.__dict__.update(k)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported(f'no contract for {n}')


def conf_world(e, doc, over=None):
    """loads pyg2p.main.context; the command file holds doc"""
    e.state['open'] = world.open_
    e.state['doc'] = doc

    def jl(f):
        if getattr(f, 'name', None) is not None and world.term(f.name) is not None and not e.known(world.term(f.name) == world.term(CMD)):
            raise Unsupported('another JSON file is read')
        return e.state['doc']
    L = loader(dict(argparse=make_argparse, ujson=ModelModule('ujson', dict(load=jl)), **(over or {})))
    L.load('pyg2p')
    C = L.load('pyg2p.main.context')
    e.state['loader'] = L
    par = VDict({'@description': 'temp', '@shortName': '2t', '@unit': 'K'})
    ctx = C

    class Configuration:
        def __new__(cls, *a):
            return Opaque(intertables=Opaque(data_path='/conf/intertables', global_data_path='/glob/intertables'), geopotentials=Opaque(data_path='/conf/geopotentials', global_data_path='/glob/geopotentials'),
                          default_interpol_dir='/conf/intertables', default_geopotential_dir='/conf/geopotentials',
                          parameters=Opaque(get=e.state.get('param_get', lambda n: par), get_conversion=e.state.get('conv_get', lambda p, i: VDict({'@unit': 'C', '@function': 'x=x'}))),
                          user=Opaque(interpolate_strings=lambda c: None, interpolate=lambda s: s))
    C.Configuration = Configuration
    f = fs()
    f.content.append((world.term(CMD), 'doc', 'text'))
    return L, C


def exists(e, *paths):
    for p in paths:
        e.assume(fs().isfile0(world.term(p)))


def absent(e, *paths):
    for p in paths:
        e.assume(znot(fs().isfile0(world.term(p))))


def sval(e, kind, name):
    if kind in ('int', 'posint', 'time'):
        v = sint_(e, name)
        e.assume(v.t >= (1 if kind == 'posint' else 0) if kind != 'time' else zor(v.t == 0, v.t == 1200))
        return v
    if kind in ('num', 'posnum'):
        v = sreal_(e, name)
        if kind == 'posnum':
            e.assume(v.t > 0)
        return v
    if kind == 'format':
        return ('pcraster', 'netcdf')[e.choose(2)]
    if kind == 'mode':
        return O.MODES[e.choose(len(O.MODES))]
    if kind == 'bool':
        return bool(e.choose(2))
    if kind == 'level':
        return ('ERROR', 'WARNING', 'INFO', 'DEBUG')[e.choose(4)]
    s = SStr(e.fresh(world.S, name))
    e.assume(z3.Length(s.t) > 0)
    return s


def document(sections):
    """JSON command file: sections -> attributes"""
    i = VDict([('@latMap', LAT), ('@lonMap', LON)] + sections.get('Interpolation', []))
    o = VDict([('@cloneMap', CLONE), ('Interpolation', i)] + sections.get('OutMaps', []))
    p = VDict([('@shortName', '2t')] + sections.get('Parameter', []))
    x = VDict([('@name', 'x'), ('Parameter', p), ('OutMaps', o)] + sections.get('Execution', []))
    if 'Aggregation' in sections:
        x['Aggregation'] = VDict(sections['Aggregation'])
    return VDict({'Execution': x})


def denotes(got, want, kind):
    """term: got is the value want (a Token, a JSON value or a default)"""
    if isinstance(want, Token):
        if kind in ('num', 'posnum') and isinstance(got, (str, SStr)):
            return SStr.of(got).t == SStr.of(want.text).t
        want = want.val
    if want is None:
        return T if got is None else F
    if got is None:
        return F
    if kind in ('int', 'posint', 'time', 'num', 'posnum'):
        if isinstance(got, (str, SStr, bool, SBool)):
            return F
        return zb(got == want)
    if kind in ('bool', 'flag'):
        return zb(got) == zb(want) if isinstance(got, (bool, SBool)) else F
    if isinstance(got, (str, SStr)) and isinstance(want, (str, SStr)):
        return SStr.of(got).t == SStr.of(want).t
    return T if got == want else F
