#!/bin/bash
# Runs /repo's stable tests and says which of them fail.
bash /opt/vp/build.sh >/tmp/rt-build.log 2>&1 || { tail -20 /tmp/rt-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/rt.json >/tmp/rt-test.log 2>&1
python3 -c "
import json
t=json.load(open('/tmp/rt.json'));b=json.load(open('/opt/vp/BASELINE.json'))
m=[x for x in b['stable'] if x not in t['passed']]
print('stable tests: %d of %d pass'%(len(b['stable'])-len(m),len(b['stable'])), m)"
