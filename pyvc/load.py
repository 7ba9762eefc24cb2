"""Mechanical instrumentation and loading of /repo's source.

The text that is verified is /repo's own source, re-read on every run.  The
instrumentation below is purely syntactic and applied to every construct of a
kind alike:
  * `for`/`while` statements go through a loop driver (concrete iterables behave
    natively; symbolic ones are cut by loop contracts),
  * list/dict/set displays, comprehensions, f-strings and calls on attributes are
    routed through helpers that fall back to the native operation on concrete values,
  * `except:` becomes `except Exception:` (so verifier control flow passes through).
Dropped: nothing of the code; calls into logging/print/gc/warnings reach models
without effect.
"""
import ast
import builtins as _b
import os
import sys
import types
import _strptime  # noqa: F401 (native strptime imports it through the caller)

from . import core

REPO = os.environ.get('VC_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
_code_cache = {}


class Instr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loopn = {}
        self.tmp = 0

    def h(self, name, *args, keywords=()):
        return ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=list(args), keywords=list(keywords))

    def qual(self):
        return '.'.join([self.mod] + self.stack)

    # -- definitions
    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    def _fn(self, n):
        self.stack.append(n.name)
        doc = ast.get_docstring(n, clean=False) is not None
        self.generic_visit(n)
        note = ast.Expr(self.h('__vc_fn__', ast.Constant(self.qual())))
        n.body.insert(1 if doc else 0, note)
        self.stack.pop()
        return n

    visit_FunctionDef = _fn
    visit_AsyncFunctionDef = _fn

    # -- displays / comprehensions / strings
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.copy_location(self.h('__vc_list__', n), n)
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        if any(k is None for k in n.keys):
            return n
        pairs = ast.List(elts=[ast.Tuple(elts=[k, v], ctx=ast.Load()) for k, v in zip(n.keys, n.values)], ctx=ast.Load())
        return ast.copy_location(self.h('__vc_dict__', pairs), n)

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple(elts=[v.value, ast.Constant(v.conversion), spec], ctx=ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(self.h('__vc_fstr__', *parts), n)

    def _comp(self, n, kind):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            names = [x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)]
            if kind == 'dict':
                elt = ast.Tuple(elts=[n.key, n.value], ctx=ast.Load())
            else:
                elt = n.elt
            # target destructuring through a generator with one element
            def lam(body):
                self.tmp += 1
                v = f'__vce{self.tmp}'
                gen = ast.GeneratorExp(elt=body, generators=[ast.comprehension(target=g.target, iter=ast.Tuple(elts=[ast.Name(id=v, ctx=ast.Load())], ctx=ast.Load()), ifs=[], is_async=0)])
                return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                  body=self.h('__vc_next__', gen))
            cond = ast.Constant(None)
            if g.ifs:
                c = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs)
                cond = lam(c)
            return ast.copy_location(self.h('__vc_comp__', ast.Constant(kind), g.iter, lam(elt), cond), n)
        return n

    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')
    def visit_SetComp(self, n): return self._comp(n, 'set')
    def visit_DictComp(self, n): return self._comp(n, 'dict')

    # -- calls on attributes (methods) : obj.name(...)
    def visit_Call(self, n):
        self.generic_visit(n)
        n.args = [ast.Starred(value=self.h('__vc_star__', a.value), ctx=ast.Load()) if isinstance(a, ast.Starred) else a for a in n.args]
        if isinstance(n.func, ast.Attribute) and not (n.func.attr.startswith('__') and not n.func.attr.endswith('__')):
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                return n
            f = self.h('__vc_meth__', n.func.value, ast.Constant(n.func.attr))
            n.func = f
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
            return ast.copy_location(self.h('__vc_meth__', n.value, ast.Constant(n.attr)), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self.h('__vc_in__', n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.NotIn):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name(id='Exception', ctx=ast.Load())
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(self.h('__vc_mod__', n.left, n.right), n)
        if isinstance(n.op, ast.Add):
            return ast.copy_location(self.h('__vc_add__', n.left, n.right), n)
        return n

    # -- loops
    def _assigned(self, body):
        names = []

        class V(ast.NodeVisitor):
            def visit_Name(s, x):
                if isinstance(x.ctx, (ast.Store, ast.Del)) and x.id not in names:
                    names.append(x.id)

            def visit_FunctionDef(s, x):
                if x.name not in names:
                    names.append(x.name)

            def visit_Lambda(s, x):
                pass

            def visit_ListComp(s, x):
                pass
            visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp

            def visit_ExceptHandler(s, x):
                for b in x.body:
                    s.visit(b)
        for b in body:
            V().visit(b)
        return names

    def _site(self):
        q = self.qual()
        self.loopn[q] = self.loopn.get(q, -1) + 1
        return f'{q}#{self.loopn[q]}'

    def _loop(self, n, is_for):
        site = self._site()
        raw = self._assigned(([ast.Assign(targets=[n.target], value=ast.Constant(0))] if is_for else []) + n.body)
        self.generic_visit(n)
        self.tmp += 1
        d = f'__vcL{self.tmp}'
        m = f'__vcM{self.tmp}'
        names = [x for x in raw if not x.startswith('__vc')]
        glob = getattr(self, 'globals_', set())
        names = [x for x in names if x not in glob]
        L = ast.Load
        nm = lambda i, c=ast.Load: ast.Name(id=i, ctx=c())
        if is_for:
            init = ast.Assign(targets=[nm(d, ast.Store)], value=self.h('__vc_loop__', ast.Constant(site), n.iter, ast.Constant(tuple(names))))
        else:
            init = ast.Assign(targets=[nm(d, ast.Store)], value=self.h('__vc_while__', ast.Constant(site), ast.Constant(tuple(names))))
        body = [ast.Assign(targets=[nm(m, ast.Store)], value=ast.Call(func=ast.Attribute(value=nm(d), attr='step', ctx=L()), args=[self.h('locals')], keywords=[]))]
        # havoc: rebind names that have a value in the driver
        hv = []
        for x in names:
            hv.append(ast.If(test=ast.Compare(left=ast.Constant(x), ops=[ast.In()], comparators=[ast.Attribute(value=nm(d), attr='values', ctx=L())]),
                             body=[ast.Assign(targets=[nm(x, ast.Store)], value=ast.Subscript(value=ast.Attribute(value=nm(d), attr='values', ctx=L()), slice=ast.Constant(x), ctx=L()))], orelse=[]))
        if hv:
            body.append(ast.If(test=ast.Attribute(value=nm(d), attr='values', ctx=L()), body=hv, orelse=[]))
        if is_for:
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=nm(m)), body=list(n.orelse) + [ast.Break()], orelse=[]))
            body.append(ast.Assign(targets=[n.target], value=ast.Attribute(value=nm(d), attr='cur', ctx=L())))
        else:
            leave = ast.Expr(ast.Call(func=ast.Attribute(value=nm(d), attr='leave', ctx=L()), args=[], keywords=[]))
            body.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=[leave] + list(n.orelse) + [ast.Break()], orelse=[]))
        body += n.body
        w = ast.While(test=ast.Constant(True), body=body, orelse=[])
        return [ast.copy_location(init, n), ast.copy_location(w, n)]

    def visit_For(self, n):
        return self._loop(n, True)

    def visit_While(self, n):
        return self._loop(n, False)


class _Glob(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Global(self, n):
        self.names.update(n.names)

    def visit_Nonlocal(self, n):
        pass


def compile_module(modname, path):
    key = (modname, path)
    if key not in _code_cache:
        src = open(path).read()
        tree = ast.parse(src, path)
        g = _Glob()
        g.visit(tree)
        ins = Instr(modname)
        ins.globals_ = set()
        tree = ins.visit(tree)
        ast.fix_missing_locations(tree)
        _code_cache[key] = compile(tree, path, 'exec', dont_inherit=True)
    return _code_cache[key]


class Loader:
    """Loads instrumented repo modules with modelled imports (fresh per path)."""

    def __init__(self, models):
        self.models = models            # name -> model module factory
        self.mods = {}
        from . import runtime
        self.builtins = runtime.make_builtins(self)

    def find(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.exists(p + '.py') and not (name == 'pyg2p'):
            return p + '.py', False
        return None, None

    def load(self, name):
        if name in self.mods:
            par, _, tail = name.rpartition('.')
            if par in self.mods and not hasattr(self.mods[par], tail):
                setattr(self.mods[par], tail, self.mods[name])
            return self.mods[name]
        if name.split('.')[0] != 'pyg2p':
            return self.model(name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        path, ispkg = self.find(name)
        if path is None:
            raise ImportError(name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        m.__package__ = name if ispkg else parent
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        try:
            exec(compile_module(name, path), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def model(self, name):
        if name in self.mods:
            return self.mods[name]
        mk = self.models.get(name)
        if mk is None:
            from .runtime import ModelModule
            m = ModelModule(name, {})
        else:
            m = mk(self) if callable(mk) else mk
        self.mods[name] = m
        core.ENG.used_models.add(name)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals['__package__'].split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        m = self.load(name)
        if fromlist:
            for f in fromlist:
                if name.split('.')[0] == 'pyg2p' and not hasattr(m, f):
                    p, _ = self.find(name + '.' + f)
                    if p:
                        self.load(name + '.' + f)
            return m
        return self.load(name.split('.')[0])
