import json,sys
d=json.load(open('evidence/%s.json'%sys.argv[1]))
for c in sorted(d['coverage']['cases'],key=lambda c:-c['wall_s'])[:12]: print({k:v for k,v in c.items() if k!='reached'})
