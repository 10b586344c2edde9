#!/bin/bash
# run the repo's tests and compare with the baseline (development aid)
bash /opt/vp/test.sh /tmp/out.json >/tmp/test.log 2>&1
python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/out.json'))
def passed(x):
    for k in ('passed','stable','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
pb,po=passed(b),passed(o)
pb=set(pb) if not isinstance(pb,dict) else {k for k,v in pb.items() if v in('pass','passed',True)}
po=set(po) if not isinstance(po,dict) else {k for k,v in po.items() if v in('pass','passed',True)}
print('baseline',len(pb),'now passing',len(po),'lost',sorted(pb-po)[:10])
PY
