#!/bin/bash
# tools/seed.sh ID: confirm a planted bug (working tree of /repo must be clean; patch.diff, demo.sh, meta.json in seeded/ID)
set -e
id=$1; d=/verif/seeded/$id; cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "clean build failed"; exit 2; }
bash "$d/demo.sh" >/tmp/seed.demo0 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -5 /tmp/seed.demo0; exit 1; }
git apply "$d/patch.diff"
r=0; bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1 || true
python3 - <<'P' || r=1
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
base=b['stable']
miss=[t for t in base if t not in set(o['passed'])]
print('tests passed',len(o['passed']),'missing',len(miss),miss[:3])
raise SystemExit(1 if miss else 0)
P
if bash "$d/demo.sh" >/tmp/seed.demo1 2>&1; then echo "DEMO PASSES WITH PATCH"; r=1; fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/seed.build 2>&1
[ $r = 0 ] && echo "CONFIRMED $id" || echo "REJECTED $id"
exit $r
