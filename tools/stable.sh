#!/bin/bash
# Rebuilds /repo and checks that all of the repository's stable tests pass (used before each commit in /repo).
bash /opt/vp/build.sh > /tmp/vp_b.log 2>&1 || { tail -20 /tmp/vp_b.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp_t.json > /dev/null 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; t=json.load(open('/tmp/vp_t.json'))
p=set(t['passed']); miss=[x for x in b if x not in p]
print(len(b), 'stable,', len(miss), 'missing', miss[:5]); raise SystemExit(bool(miss))
PY
