#!/bin/bash
# runs the repository's tests and prints which of the stable ones fail
bash /opt/vp/test.sh /tmp/stable-o.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open('/tmp/stable-o.json'))
print('stable failing:',set(b['stable'])-set(o['passed']))"
