#!/bin/bash
# rebuild and run the repository's own tests; print stable tests that do not pass
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/out.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/out.json'))
p=set(o['passed']); m=[x for x in b['stable'] if x not in p]
print("stable tests failing:",m); import sys; sys.exit(bool(m))
P
