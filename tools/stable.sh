#!/bin/bash
# run the repository's tests and compare with the stable baseline
cd "${1:-/repo}"; bash /opt/vp/test.sh /tmp/stable_out.json >/tmp/stable.log 2>&1
python3 - <<'P'
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('/tmp/stable_out.json'))
m=sorted(b-set(o['passed'])); print('stable missing:',m); print('failed:',len(o['failed']))
P
