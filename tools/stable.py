import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
print({k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in b.items()}, {k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in o.items()})
