import json,sys
r=json.load(open(sys.argv[1])); print(r['why']); print(json.dumps(r['scenario'])[:1500])
for i,e in enumerate(r['record']['ev'],1): print(i,json.dumps(e))
