#!/bin/bash
# tools/seed.sh ID [notest]: take /repo's working-tree change as the planted bug seeded/ID, confirm it and see whether the check catches it
id=$1; d=/verif/seeded/$id
[ -f "$d/demo.sh" ] || { echo "no demo"; exit 1; }
if [ -n "$(git -C /repo diff)" ]; then git -C /repo diff > "$d/patch.diff"; else git -C /repo apply "$d/patch.diff"; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
bash /opt/vp/build.sh > /tmp/seed-b.log 2>&1 || { tail -20 /tmp/seed-b.log; git -C /repo checkout -q -- .; echo "BUILD FAILED"; exit 1; }
(cd /repo; timeout 300 bash "$d/demo.sh" > /tmp/seed-d.log 2>&1); echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/seed-d.log
if [ "$2" != notest ]; then
bash /opt/vp/test.sh /tmp/o.json > /tmp/seed-t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print('stable tests failing:', [x for x in b['stable'] if x not in o['passed']])
P
fi
if python3 -c "import json,sys;sys.exit(0 if any(c['property']=='$prop' for c in json.load(open('/verif/MANIFEST.json'))['checks']) else 1)" 2>/dev/null; then
(cd /verif; timeout 900 ./check $prop 2>&1 | tail -4 | cut -c1-400); fi
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /tmp/seed-b.log 2>&1
(cd /repo; timeout 300 bash "$d/demo.sh" > /tmp/seed-d.log 2>&1); echo "demo without patch: $? (want 0)"; tail -3 /tmp/seed-d.log
