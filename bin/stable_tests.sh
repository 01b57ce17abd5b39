#!/bin/bash
# builds /repo and compares the test results with the baseline (development aid)
bash /opt/vp/build.sh >/tmp/cbv_build.log 2>&1 || { echo "build failed"; exit 1; }
bash /opt/vp/test.sh /tmp/cbv_tests.json >/tmp/cbv_tests.log 2>&1
python3 -c "
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/cbv_tests.json'))
lost=sorted(set(b['stable'])-set(t['passed']))
print(len(t['passed']),'passed,',len(lost),'of the baseline lost',lost[:5]); sys.exit(1 if lost else 0)"
