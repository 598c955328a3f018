#!/bin/bash
# run the repository's tests, print failures among the stable ones
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1
python3 - <<'P'
import json
d=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print(len(d['passed']),'passed; stable missing:',sorted(set(b['stable'])-set(d['passed'])))
P
