#!/bin/bash
# run the stable tests on /repo and report baseline tests that no longer pass
bash /opt/vp/test.sh /tmp/suite.json > /tmp/suite.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/suite.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    return set(x)
bp=names(b); rp=names(r)
print("baseline",len(bp),"passed",len(rp),"missing",sorted(bp-rp)[:20])
P
