#!/bin/bash
# seed.sh ID: checks a planted bug end to end against /repo (applied, tested, undone)
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "dirty /repo"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
cp -r $d /tmp/demo.$$; rm -f /tmp/demo.$$/patch.diff /tmp/demo.$$/meta.json
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "clean build failed"; exit 2; }
timeout 300 bash /tmp/demo.$$/demo.sh >/tmp/demo.clean 2>&1; echo "demo clean rc=$?"
git apply $d/patch.diff || { echo "patch does not apply"; exit 2; }
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo "PATCHED BUILD FAILED"; tail -5 /tmp/b.log; exit 2; }
timeout 300 bash /tmp/demo.$$/demo.sh >/tmp/demo.bug 2>&1; echo "demo patched rc=$?"
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
print("tests lost:", sorted(set(b['stable'])-set(o['passed'])))
P
rm -rf /tmp/demo.$$
if [ -z "$NOCHECK" ]; then
for p in $prop $EXTRA; do
cd /verif; /usr/bin/time -f "%es" timeout 900 python3 checks/$p.py quick > /tmp/seed.out 2>&1; echo "check $p rc=$?"; grep -a -A3 VIOLATION /tmp/seed.out | head -${LINES_:-6} | cut -c1-300; tail -1 /tmp/seed.out
done; fi
