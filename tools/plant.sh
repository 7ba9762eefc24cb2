#!/bin/bash
# plant.sh ID PROPERTY : the change is in /tmp/w/repo (a copy of /repo), demo in /tmp/w/demo_ID.(sh|py), meta in env NEEDS, BREAKS
# confirms: builds, stable tests pass, demo fails with the change and passes without it; then stores it in /verif/seeded/ID
set -e
id=$1; prop=$2; W=${W:-/tmp/w/repo}
d=/verif/seeded/$id
git -C $W diff > /tmp/w/$id.diff
test -s /tmp/w/$id.diff
mkdir -p $d
cp /tmp/w/demo_$id.py $d/demo.py
printf '#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n' > $d/demo.sh; chmod +x $d/demo.sh
cp /tmp/w/$id.diff $d/patch.diff
git -C /repo apply --check $d/patch.diff
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/$id.clean 2>&1) || { echo "demo FAILS on clean tree"; tail -5 /tmp/w/$id.clean; exit 1; }
git -C /repo apply $d/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh >/tmp/w/$id.build 2>&1 || { echo "build fails"; exit 1; }
if (cd /repo && timeout 300 bash $d/demo.sh >/tmp/w/$id.bug 2>&1); then echo "demo passes with the change"; exit 1; fi
tail -2 /tmp/w/$id.bug
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/w/$id.json >/tmp/w/$id.test 2>&1 || true
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(f'/tmp/w/{sys.argv[1]}.json'))
print('tests', {k:(len(v) if hasattr(v,'__len__') else v) for k,v in r.items()})
P
fi
ID=$id PROP=$prop python3 - <<'P'
import json,os
json.dump({"property":os.environ['PROP'],"needs":os.environ.get('NEEDS',''),"what_it_breaks":os.environ.get('BREAKS','')},open(f"/verif/seeded/{os.environ['ID']}/meta.json",'w'),indent=1)
P
echo stored $id
