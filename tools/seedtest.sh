#!/bin/bash
# seedtest.sh ID [nocheck]: confirm a planted bug in /repo (applied and undone) and run its property's check.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 2
test -z "$(git status --porcelain)" || { echo "repo dirty"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1; bash $d/demo.sh >/tmp/demo0.out 2>&1; a=$?
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/tmp/seed_build.out 2>&1; b=$?
bash /opt/vp/test.sh /tmp/seed_t.json >/dev/null 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/seed_t.json'))
s=json.dumps(r)
p=r.get('passed', r)
print('tests-ok' if all(x in p for x in b) else 'TESTS-FAIL '+str(r)[:300])
P
)
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $d/demo.sh >/tmp/demo1.out 2>&1; c=$?
echo "$id [$prop] clean-demo=$a build=$b $t bug-demo=$c"
[ "$2" = nocheck ] || { timeout 900 python3 /verif/checks/check.py $prop quick > /tmp/seed_check.out 2>&1; echo "   check exit $? : $(grep -E 'VIOLATION|NO ANSWER|obligation' /tmp/seed_check.out | head -3 | tr '\n' ' ')"; }
