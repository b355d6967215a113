#!/bin/bash
# builds /repo and runs the stable tests
bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/rt.json 2>/dev/null; python3 - <<'P'
import json
r=json.load(open('/tmp/rt.json'));b=json.load(open('/opt/vp/BASELINE.json'))['stable']
m=[t for t in b if t not in set(r['passed'])]
print(len(b)-len(m),'of',len(b),'stable pass',m[:10])
P
