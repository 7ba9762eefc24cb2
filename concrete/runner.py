"""Run-time contract checking on the real code (bounded; /opt/venv python).

runner.py <property> --seed N --budget S --tier T --out FILE     search
runner.py <property> --replay FILE                               replay one case
A property module defines cases(rng, tier) -> iterator of JSON-able dicts and
check(case) -> None or a text saying how the contract failed on the real code.
"""
import argparse
import contextlib
import hashlib
import importlib
import io
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('VC_REPO', '/repo')
sys.path.insert(0, os.path.join(REPO, 'src'))
sys.dont_write_bytecode = True


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def jdump(x):
    return json.dumps(x, sort_keys=True, default=str)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--budget', type=float, default=30)
    ap.add_argument('--max', type=int, default=10 ** 9)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--replay')
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix='vc_')
    os.environ['HOME'] = scratch
    os.environ.setdefault('NUMBA_CACHE_DIR', scratch)
    os.environ['VC_SCRATCH'] = scratch
    cwd = os.path.join(scratch, 'cwd')
    os.makedirs(cwd)
    os.chdir(cwd)
    res = {'property': a.prop, 'evaluations': 0, 'distinct': 0, 'nontrivial': 0, 'failures': [], 'errors': [], 'samples': [], 'rule': ''}
    real_out = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    verbose = bool(os.environ.get('VC_VERBOSE'))
    try:
        warnings.simplefilter('ignore')
        import logging
        logging.disable(logging.CRITICAL)
        if not verbose:
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        mod = importlib.import_module(a.prop)
        signal.signal(signal.SIGALRM, _alarm)

        def one(case):
            signal.alarm(getattr(mod, 'CASE_TIMEOUT', 120))
            try:
                return mod.check(case)
            finally:
                signal.alarm(0)
        res['rule'] = getattr(mod, 'RULE', '')
        if a.replay:
            case = json.load(open(a.replay))
            case = case.get('case', case)
            r = one(case)
            os.dup2(real_out, 1)
            print(json.dumps({'case': case, 'failure': r}, default=str)[:4000])
            return 1 if r else 0
        rng = random.Random(a.seed)
        seen = set()
        t0 = time.time()
        for case in mod.cases(rng, a.tier):
            if res['evaluations'] >= a.max or time.time() - t0 > a.budget:
                break
            s = jdump(case)
            h = hashlib.md5(s.encode()).digest()
            if h not in seen:
                seen.add(h)
                res['distinct'] += 1
                if getattr(mod, 'nontrivial', lambda c: True)(case):
                    res['nontrivial'] += 1
            try:
                r = one(case)
            except Timeout:
                r = None
                res['errors'].append('timeout: ' + s[:300])
            except Exception:
                r = None
                res['errors'].append(traceback.format_exc()[-1200:] + ' case ' + s[:300])
                if len(res['errors']) > 20:
                    break
            res['evaluations'] += 1
            if len(res['samples']) < 3 or (res['evaluations'] in (10, 100, 1000)):
                res['samples'].append(json.loads(s) if len(s) < 3000 else s[:3000])
            if r:
                key = getattr(mod, 'key', lambda c, m: '')(case, r)
                res['failures'].append({'case': json.loads(s), 'message': r, 'key': key})
                if len([f for f in res['failures'] if not f['key']]) >= 3 or len(res['failures']) > 50:
                    break
        res['wall_s'] = round(time.time() - t0, 2)
    except BaseException as ex:
        res['errors'].append(traceback.format_exc()[-2000:])
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    if a.out:
        with open(a.out, 'w') as f:
            json.dump(res, f, default=str)
    return 0


if __name__ == '__main__':
    sys.exit(main())
