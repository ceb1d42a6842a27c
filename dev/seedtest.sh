#!/bin/bash
# stable tests in a scratch copy of the repository
t="$1"
sed "s#/repo#$t#g" /opt/vp/test.sh > "$t/../test.sh"
sed "s#/repo#$t#g" /opt/vp/build.sh > "$t/../build.sh"
bash "$t/../test.sh" "$t/../o.json" >/dev/null 2>&1
python3 - "$t/../o.json" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
p=set(o['passed']); bad=[x for x in b['stable'] if x not in p]
print(len(p),'passed; stable missing:',bad)
P
