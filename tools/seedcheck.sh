#!/bin/bash
# seedcheck.sh ID [PROPERTY...]: applies seeded/ID to /repo, builds, tests, runs the demo with and without it and the checks; undoes it.
# QUICK=1: only the checks
ID=$1; shift
S=/verif/seeded/$ID
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo is not clean"; exit 1; }
undo() { git -C /repo checkout -q -- .; }
trap undo EXIT
if [ -z "$QUICK" ]; then
  bash /opt/vp/build.sh >/tmp/bld.log 2>&1
  timeout 300 bash $S/demo.sh >/tmp/demo.log 2>&1; echo "demo without: $? (want 0)"
fi
git apply $S/patch.diff || { echo "patch does not apply"; exit 1; }
if [ -z "$QUICK" ]; then
  bash /opt/vp/test.sh /tmp/out.json >/tmp/bld.log 2>&1
  python3 -c "
import json;d=json.load(open('/tmp/out.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print('tests: passed',len(d['passed']),'missing',sorted(set(b['stable'])-set(d['passed']))[:5])"
  timeout 300 bash $S/demo.sh >/tmp/demo.log 2>&1; echo "demo with: $? (want nonzero)"; tail -3 /tmp/demo.log
fi
cd /verif
for p in $P; do /usr/bin/time -f %es timeout 900 python3 check.py $p quick 2>&1 | tail -c 1500; done
