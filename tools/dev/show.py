import json,sys
d=json.load(open(sys.argv[1] if len(sys.argv)>1 else "/tmp/o.json"))
S=d['suites']
print(len(S),'suites',sum(s['cases'] for s in S),'cases',sum(s['wall_s'] for s in S),'s; incomplete:',[s['name'] for s in S if not s['complete']], 'max',max((s['wall_s'],s['name']) for s in S))
for v in d['violations'][:12]: print(v['suite'],v['case'],v['key'],v['what'][:300],v['confirmed'])
