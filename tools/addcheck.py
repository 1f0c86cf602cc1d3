import json,sys
p='tools/checks.json'; d=json.load(open(p)); d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}
open(p,'w').write("{\n"+",\n".join(json.dumps(k)+": "+json.dumps(d[k]) for k in sorted(d))+"\n}\n")
