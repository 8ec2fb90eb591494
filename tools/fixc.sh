#!/bin/bash
# fixc.sh PROP "subject" "what failed": tests, commits /repo's edit as a fix, records it.
set -e
cd /repo; . /opt/vp/env.sh
gofmt -l $(git diff --name-only) | grep . && { echo gofmt; exit 1; }
bash /opt/vp/build.sh
bash /opt/vp/test.sh /tmp/fixc.json >/dev/null 2>&1 || true
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/fixc.json'))
def passed(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    raise SystemExit(f'keys {list(x)}')
lost=passed(b)-passed(o)
if lost: raise SystemExit(f'LOST {lost}')
P
rm -f /tmp/fixc.json
git diff --name-only | grep _test.go && exit 1
git commit -qam "fix: $2"
h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $3" >> /verif/KNOWN_FINDINGS.txt
echo "committed $h"
