#!/bin/bash
# seed.sh ID: does the planted bug build, pass the stable tests, fail its demo, and does the check see it?
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 2; }
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/seed.demo0 2>&1; r0=$?
git apply $d/patch.diff || exit 2
bash /opt/vp/build.sh >/tmp/seed.build 2>&1; rb=$?
bash /opt/vp/test.sh /tmp/seed.tests.json >/dev/null 2>&1
rt=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed.tests.json'))
def names(x):
    for k in ('passed','pass','stable','tests'):
        if k in x: return set(x[k])
    return set()
print(len(names(b)-names(t)), 'missing of', len(names(b)))
P
)
bash $d/demo.sh >/tmp/seed.demo1 2>&1; r1=$?
cd /verif; s=$(date +%s); timeout 900 ./check $prop quick >/tmp/seed.check 2>&1; rc=$?; e=$(date +%s)
echo "$1 $prop: build=$rb tests=$rt demo clean=$r0 patched=$r1 check=$rc ($((e-s)) s) $(grep -m1 -o '^[a-z-]*: ' /tmp/seed.check)"
[ $r0 = 0 ] || tail -5 /tmp/seed.demo0
