#!/bin/bash
# seedtest.sh ID...: applies the bug to /repo, builds, runs the stable tests, the demo before/after and the property's check, then undoes it.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 1; git checkout -q -- .
  bash /opt/vp/build.sh >/tmp/b0.log 2>&1; bash $d/demo.sh >/tmp/d0.log 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id NOAPPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/b1.log 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t1.json >/dev/null 2>&1; t=$(grep -c naive_bayes_toy_test /tmp/t1.json)
  ts=$(python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t1.json'))
print(str(t)[:0]+('ok' if 'naive_bayes_toy_test' in str(t.get('passed',t.get('pass',''))) else str(t)[:200]))
PY
)
  bash $d/demo.sh >/tmp/d1.log 2>&1; r1=$?
  c="-"; if [ -z "$NOCHECK" ]; then (cd /verif; timeout 900 python3 check.py $p quick > /tmp/c1.log 2>&1); c=$?; v=$(grep -a '^VIOLATION' /tmp/c1.log | head -1); fi
  git checkout -q -- .
  echo "$id prop=$p build=$b tests=$ts demo_clean=$r0 demo_bug=$r1 check=$c $v | $(tail -1 /tmp/d1.log | cut -c1-150)"
done
bash /opt/vp/build.sh >/dev/null 2>&1
