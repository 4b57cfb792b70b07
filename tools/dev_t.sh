#!/bin/bash
# run tests compare with baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
import itertools
def passed(d):
    for k in ('passed','stable','pass'):
        if k in d: return set(d[k])
    return {k for k,v in d.items() if v in('passed','pass')}
B=passed(b) ; O=passed(o)
print('baseline',len(B),'now',len(O),'broken',sorted(B-O)[:10],'newly',sorted(O-B)[:10])
P
git -C /repo status --short | head
