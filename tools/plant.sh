#!/bin/bash
# plant.sh ID [notest]: try the planted change seeded/ID against the demo, the repository's stable tests and its property's quick check.
d=/verif/seeded/$1
prop=$(python3 -c "import json,sys;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 2; }
bash "$d/demo.sh" > /tmp/pl.demo0 2>&1; echo "demo unpatched: $? (want 0)"
git apply "$d/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh > /tmp/pl.build 2>&1 || { echo "BUILD FAILS"; tail -20 /tmp/pl.build; exit 2; }
bash "$d/demo.sh" > /tmp/pl.demo1 2>&1; echo "demo patched: $? (want nonzero)"; tail -3 /tmp/pl.demo1
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/pl.out.json > /tmp/pl.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/pl.out.json'))
def ids(x):
    for k in ('stable','passed','tests','pass','stable_pass'):
        if k in x:
            v=x[k]; return set(v if isinstance(v,list) else [a for a,s in v.items() if s in (True,'pass','passed','ok')])
    raise SystemExit(list(x))
print('tests lost:', sorted(ids(b)-ids(o)))
P
fi
t0=$SECONDS
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 /verif/check.py $prop quick > /tmp/pl.check 2>&1; echo "check $prop: exit $? in $((SECONDS-t0)) s"; grep -E 'VIOLATION' /tmp/pl.check | head -3
