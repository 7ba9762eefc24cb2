"""Run the verification conditions of one contract: runvc.py <property> <vc name> <tier> -> JSON on stdout."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def main():
    prop, name, tier = sys.argv[1:4]
    out = {'vc': name, 'status': 'error', 'obligations': {}, 'functions': [], 'unsupported': [], 'models': []}
    t0 = time.time()
    try:
        import io
        import contextlib
        from pyvc.core import Engine
        mod = importlib.import_module(f'contracts.{prop}')
        vc = next(v for v in mod.vcs(tier) if v['name'] == name)
        e = Engine(name, timeout_ms=vc.get('timeout_ms', 20000), budget_s=vc.get('budget_s', 240), max_paths=vc.get('max_paths', 6000))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            e.run(vc['harness'])
        obl = {}
        for k, d in e.summary().items():
            st = 'discharged' if d['discharged'] == d['n'] else ('refuted' if d['refuted'] and not d['abstract'] else 'unknown')
            obl[k] = {'status': st, 'n': d['n'], 'discharged': d['discharged'], 'time': round(d['time'], 3), 'backends': sorted(d['backends']), 'detail': d['detail'][:1500]}
        out.update(obligations=obl, functions=sorted(e.functions), unsupported=[str(u)[:300] for u in e.unsupported], models=sorted(e.used_models),
                   paths=e.paths, solver_calls=e.solver_calls, solver_time=round(e.solver_time, 2), covers=e.covers)
        cov = [c for c in vc.get('covers', ['pre']) if not e.covers.get(c)]
        if e.unsupported:
            out['status'] = 'undecided'
        elif not obl:
            out['status'] = 'undecided'
            out['unsupported'] = ['no obligation was generated']
        elif all(o['status'] == 'discharged' for o in obl.values()):
            if cov:
                out['status'] = 'undecided'
                out['unsupported'] = [f'unreachable: {cov}']
            else:
                out['status'] = 'proved'
        elif any(o['status'] == 'refuted' for o in obl.values()):
            out['status'] = 'refuted'
        else:
            out['status'] = 'undecided'
        if e.unsupported and any(o['status'] == 'refuted' for o in obl.values()):
            out['status'] = 'refuted'
    except BaseException as ex:
        out['unsupported'] = [f'{type(ex).__name__}: {ex}', traceback.format_exc()[-1500:]]
        out['status'] = 'undecided'
    out['wall_s'] = round(time.time() - t0, 2)
    sys.stdout.write(json.dumps(out) + '\n')


if __name__ == '__main__':
    main()
