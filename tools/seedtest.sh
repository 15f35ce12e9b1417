#!/bin/bash
# applies seeded/<id>/patch.diff to /repo, builds, tests, runs the demo and the given check, and undoes it
ID=$1; D=/verif/seeded/$ID; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo || exit 9
if [ "$2" != nodemo ]; then bash /opt/vp/build.sh >/dev/null 2>&1; timeout 300 bash $D/demo.sh > /tmp/w/demo.clean 2>&1; echo "demo on the unchanged tree: $?"; fi
git apply $D/patch.diff || exit 9
trap 'git -C /repo checkout -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh > /tmp/w/seed.build 2>&1 || { tail -5 /tmp/w/seed.build; echo BUILD FAILED; exit 1; }
if [ "$2" != nodemo ]; then
bash /opt/vp/test.sh /tmp/w/seed.json > /tmp/w/seed.test 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/w/seed.json'))
s=b.get('stable') or b.get('passed') or b
print('tests lost:', sorted(set(s)-set(r['passed'])) if isinstance(s,list) else list(b.keys()))
P
timeout 300 bash $D/demo.sh > /tmp/w/demo.bug 2>&1; echo "demo with the change: $?"; tail -2 /tmp/w/demo.bug
fi
cd /verif; python3-vt check.py $P quick 2>&1 | cut -c1-300 | tail -8
