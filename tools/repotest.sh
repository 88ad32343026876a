#!/bin/bash
# Rebuilds /repo, runs its tests and compares with the stable baseline.
out=$(mktemp)
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -30 /tmp/build.log; echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh "$out" >/dev/null 2>&1
python3 - "$out" <<'PY'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
miss=sorted(set(b['stable'])-set(o['passed']))
print('stable', len(b['stable']), 'missing', miss)
sys.exit(1 if miss else 0)
PY
rc=$?
rm -f "$out"
exit $rc
