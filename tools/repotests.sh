#!/bin/bash
# Run /repo's baseline tests and compare with the stable list.
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD-FAIL; exit 1; }
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json,sys
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
miss=[t for t in b['stable'] if t not in o['passed']]
print('stable tests failing:',miss); sys.exit(bool(miss))
P
