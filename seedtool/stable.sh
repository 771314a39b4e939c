#!/bin/bash
# runs the repository's tests and names the stable ones that did not pass
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD-FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in o['passed']]
print('stable',len(b['stable']),'missing',m)"
