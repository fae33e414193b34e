import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open(sys.argv[1]))
print([k for k in b if not isinstance(b[k],(str,int))], list(r)[:5])
st=set(b['stable']); ps=set(r.get('passed',r.get('pass',[])))
print('stable not passing:', sorted(st-ps)[:10], len(st-ps))
