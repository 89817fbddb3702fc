#!/bin/bash
# fixcommit.sh Cxx "what failed" : tests, commits /repo's working tree as a fix and records it
set -e
cd /repo
bash /opt/vp/build.sh >/dev/null
bash /opt/vp/test.sh /tmp/fixtest.json >/tmp/fixtest.log 2>&1 || true
tail -1 /tmp/fixtest.log
/usr/bin/python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/fixtest.json'))
def passed(d):
    for k in ('passed','pass','stable'):
        if k in d: return set(d[k] if not isinstance(d[k],dict) else d[k])
    raise SystemExit(str(d.keys()))
miss=set(b['stable'])-set(r['passed'])
if miss: raise SystemExit('BROKEN TESTS: %s'%miss)
PY
git -c user.name=verif -c user.email=v@x commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/known_findings.txt
git status --short
echo "$h"
