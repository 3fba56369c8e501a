import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open(sys.argv[1]))
ps=set(r['passed']); m=[x for x in b['stable'] if x not in ps]
print(len(b['stable']),"stable; missing:",len(m),m[:10])
