#!/bin/bash
# plant.sh ID PROP: turns the uncommitted diff of /tmp/pl/repo into /verif/seeded/ID after confirming it builds, passes the stable tests, and that demo.cpp/demo.sh
# (prepared in /verif/seeded/ID) pass without and fail with it.
set -u
ID=$1; D=/verif/seeded/$ID; W=/tmp/pl/repo
[ -f $D/demo.sh ] || cp /verif/tools/demo_template.sh $D/demo.sh
cd $W && git diff > $D/patch.diff && [ -s $D/patch.diff ] || { echo "no diff"; exit 1; }
bash /opt/vp/build.sh >/dev/null 2>&1 # builds /repo (unchanged) for the demo
(cd /repo && bash $D/demo.sh > /tmp/pl/demo0.log 2>&1); r0=$?
git -C /repo apply $D/patch.diff || exit 1
bash /opt/vp/build.sh > /tmp/pl/build.log 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/pl/t.json > /tmp/pl/test.log 2>&1
(cd /repo && bash $D/demo.sh > /tmp/pl/demo1.log 2>&1); r1=$?
git -C /repo checkout -- .
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/pl/t.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set(x)
p=names(t); s=names(b)
print("build rc $rb, demo unchanged $r0 (want 0), demo patched $r1 (want !=0), stable tests missing:", sorted(s-p)[:5])
PY
tail -3 /tmp/pl/demo1.log
git -C $W checkout -q -- .
