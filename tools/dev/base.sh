bash /opt/vp/test.sh /tmp/w/t.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t.json'))
print('missing:',set(b['stable'])-set(t['passed']))"
