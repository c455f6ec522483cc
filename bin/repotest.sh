#!/bin/bash
# development aid: build /repo, run its tests, compare with the baseline
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { tail -30 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
st=set(b['stable']); ps=set(o.get('passed',[])); m=st-ps
print("stable",len(st),"missing",len(m)); [print("  ",x) for x in sorted(m)]
P
