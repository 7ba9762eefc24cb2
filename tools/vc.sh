#!/bin/bash
# vc.sh <property> [name substring]: run verification tasks and show the obligations
cd "$(dirname "$0")/.."
PY=/opt/veriftools/pyvenv/bin/python
$PY -W ignore - "$@" <<'PYEOF'
import sys, json, functools
print=functools.partial(print,flush=True)
import sys, json, subprocess, importlib
sys.path.insert(0,'.'); sys.dont_write_bytecode=True
prop=sys.argv[1]; sub=sys.argv[2] if len(sys.argv)>2 else ''
m=importlib.import_module('contracts.'+prop)
for v in m.vcs('quick'):
    if sub not in v['name']: continue
    p=subprocess.run([sys.executable,'-W','ignore','pyvc/runvc.py',prop,v['name'],'quick'],capture_output=True,text=True)
    try: d=json.loads(p.stdout.strip().splitlines()[-1])
    except Exception: print(v['name'],p.stdout[-500:],p.stderr[-2000:]); continue
    print(d["status"].upper(),d['vc'],'paths',d.get('paths'),'wall',d.get('wall_s'),'solver',d.get('solver_time'),d.get('covers'))
    for u in d['unsupported']: print('     unsupported:',u)
    for k,o in d['obligations'].items():
        if o['status']!='discharged' or len(sys.argv)>3: print('     ',o['status'],o['discharged'],'/',o['n'],o['time'],k,o['detail'][:900])
PYEOF
