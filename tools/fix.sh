#!/bin/bash
# usage: fix.sh "message"
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P' || exit 1
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/o.json'))['passed'])
m=[x for x in b if x not in o]
print("missing",m); sys.exit(1 if m else 0)
P
git status --short
git commit -qam "$1" && git log --oneline | head -1
