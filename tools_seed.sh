#!/bin/bash
# tools_seed.sh ID [--check]: confirm a planted bug (demo quiet on clean tree, fails with the patch, stable tests pass); --check: run the property's quick check with it
id=$1; d=/verif/seeded/$id; cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
if [ "$2" != "--checkonly" ]; then
bash $d/demo.sh > /tmp/seed.clean.log 2>&1; echo "clean demo: $?"
fi
git apply $d/patch.diff || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != "--checkonly" ]; then
bash /opt/vp/build.sh > /tmp/seed.build.log 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed.build.log; }
bash /opt/vp/test.sh /tmp/seed.tests.json > /tmp/seed.test.log 2>&1; echo "tests: $? $(python3 -c "
import json;a=json.load(open('/tmp/seed.tests.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print({k:(len(v) if hasattr(v,'__len__') else v) for k,v in a.items()})")"
bash $d/demo.sh > /tmp/seed.bug.log 2>&1; echo "bug demo: $?"; grep -h "DEMO FAILS" /tmp/seed.bug.log | head -3
fi
if [ "$2" = "--check" -o "$2" = "--checkonly" ]; then
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
c=$(python3 -c "import json;print([x['quick_cmd'] for x in json.load(open('/verif/MANIFEST.json'))['checks'] if x['property']=='$p'][0])")
cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 bash -c "$c" > /tmp/seed.check.log 2>&1; echo "check: $?"; grep -h "VIOLATION" /tmp/seed.check.log; tail -2 /tmp/seed.check.log
fi
