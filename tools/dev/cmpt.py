import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/w/out.json'))
st=set(b['stable']); p=set(o['passed'])
print('missing', sorted(st-p)[:20], len(p))
