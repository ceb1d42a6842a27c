#!/bin/bash
# development: build and run the repository tests, list stable ones that no longer pass
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/vt_o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/vt_o.json'))
p=set(o['passed']); bad=[x for x in b['stable'] if x not in p]
print(len(p),'passed; stable missing:',bad)
P
