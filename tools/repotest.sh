#!/bin/bash
# Rebuilds the repository and runs its tests; prints the stable tests that do not pass.
bash /opt/vp/build.sh >/tmp/repotest.log 2>&1 || { tail -20 /tmp/repotest.log; exit 1; }
bash /opt/vp/test.sh /tmp/repotest.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open('/tmp/repotest.json'))['passed'])
print("stable", len(b), "missing", sorted(b-p)); sys.exit(1 if b-p else 0)
P
