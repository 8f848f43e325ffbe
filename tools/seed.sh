#!/bin/bash
# seed.sh ID [checks...]: confirms a planted bug: applies it to /repo, builds, tests,
# runs its demonstration and the checks, undoes it and runs the demonstration again.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
git apply "$d/patch.diff" || { echo "does not apply"; exit 1; }
base=2318a1b
bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.log 2>&1
python3 - <<'P'
import json
r = json.load(open('/tmp/seed.json')); b = json.load(open('/opt/vp/BASELINE.json'))
want = set(b['stable'])
print('tests: missing', sorted(want - set(r['passed']))[:5], 'of', len(want))
P
demo=/tmp/seeddemo.$$; mkdir $demo; cp -r "$d/." $demo; rm -f $demo/*.diff $demo/meta.json
(cd /repo; time timeout 300 bash $demo/demo.sh) 2>&1 | grep -v '^$\|user\|sys' | tail -3; echo "demo patched: ${PIPESTATUS[0]}"
(cd /repo; timeout 300 bash $demo/demo.sh >/dev/null 2>&1); echo "demo patched rc: $?"
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
for c in ${@:-$prop}; do
    (cd /verif; VERIF_SEED=${SEED:-1} VERIF_TIER=quick timeout 900 python3 checks/run.py $c quick >/tmp/seed.$c.out 2>&1; echo "check $c: rc $? $(grep -c VIOLATION /tmp/seed.$c.out) $(grep -A2 -m1 VIOLATION /tmp/seed.$c.out | tail -2 | cut -c1-150 | tr '\n' ' ')")
done
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
for i in 1 2; do (cd /repo; timeout 300 bash $demo/demo.sh >/tmp/seed.demo.out 2>&1); echo "demo clean rc: $?"; done
rm -rf "$demo"
