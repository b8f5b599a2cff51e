#!/bin/bash
# usage: fix.sh PROPERTY "message" "what failed" : tests /repo's working tree, commits it as a fix and records it
cd /repo && gofmt -l $(git diff --name-only) ; bash /opt/vp/build.sh >/tmp/build.log 2>&1 || { tail -5 /tmp/build.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P' || exit 1
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
import itertools
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    sys.exit('keys '+str(x.keys()))
miss=names(b)-names(o)
print('missing',miss)
sys.exit(1 if miss else 0)
P
git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD) && echo "fixed: property=$1 $h $3" >> /verif/known-findings.txt && echo committed $h
