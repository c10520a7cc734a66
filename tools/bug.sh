#!/bin/bash
# bug.sh <id> [full]: apply a seeded bug to /repo, run its property's check (and, with `full`, build, tests and demo), restore
id=$1; d=/verif/seeded/$id
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
if [ "${2:-}" = full ]; then
  bash /opt/vp/build.sh > /tmp/bug-build.log 2>&1 || echo "clean build failed"
  (cd /repo && timeout 300 bash $d/demo.sh) > /tmp/bug-demo0.log 2>&1; echo "demo clean rc=$?"
fi
git -C /repo apply $d/patch.diff || { echo APPLY-FAILED; exit 1; }
if [ "${2:-}" = full ]; then
  if bash /opt/vp/build.sh > /tmp/bug-build.log 2>&1; then
    (cd /repo && timeout 300 bash $d/demo.sh) > /tmp/bug-demo1.log 2>&1; echo "demo bug rc=$?"
    bash /opt/vp/test.sh /tmp/bug-test.json > /tmp/bug-test.log 2>&1
    python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/bug-test.json'))
base=set(b['stable'])
print('tests newly failing:', sorted(base-set(t['passed']))[:8])
PY
  else echo "build failed with bug"; tail -5 /tmp/bug-build.log; fi
fi
VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt /verif/check.py $p > /tmp/bug-check.log 2>&1; rc=$?
git -C /repo checkout -- .
echo "check $p rc=$rc: $(grep -h VIOLATION /tmp/bug-check.log | head -3)"; [ $rc -le 1 ] || tail -5 /tmp/bug-check.log
