#!/bin/sh
# Build /repo and run its own tests; prints how many stable tests pass.
bash /opt/vp/build.sh >/tmp/rtest.b 2>&1 || { tail -20 /tmp/rtest.b; exit 1; }
bash /opt/vp/test.sh /tmp/rtest.json >/tmp/rtest.t 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/rtest.json'))['passed']
m=[x for x in b if x not in o];print(len(o),'passed; stable missing:',m)"
