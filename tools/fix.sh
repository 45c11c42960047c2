#!/bin/bash
# fix.sh "message": run the stable tests on /repo and commit the change as a fix.
set -e
bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/test.log 2>&1 || true
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
t=json.load(open('/tmp/t.json'))
p=set(t.get('passed') or t.get('pass') or [])
miss=sorted(b-p)
print(t.keys(), len(p), 'missing:', miss)
sys.exit(1 if miss else 0)
P
cd /repo && git add -A src && git commit -qm "$1" && git log --oneline | head -1
