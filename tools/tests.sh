#!/bin/bash
# usage: tests.sh -> runs the repo's tests, prints missing stable ones
bash /opt/vp/build.sh >/dev/null || { echo BUILD FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t.get('passed',[])); m=[x for x in b['stable'] if x not in p]
print('stable', len(b['stable']), 'missing', m[:8])
P
