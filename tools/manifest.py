#!/usr/bin/env python3
# writes /verif/MANIFEST.json from the list of implemented checks
import json,subprocess,os,re
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
impl=set()
tech={}
for f in sorted(os.listdir(root+'/checker')):
    if f.endswith('.go'):
        s=open(root+'/checker/'+f).read()
        for m in re.finditer(r'id:\s*"(C\d\d)"',s): impl.add(m.group(1))
from manifest_data import TECH,NA
props=[json.loads(l)['id'] for l in open(root+'/properties.jsonl')]
m={"version":1,"setup_cmd":"bash run.sh build","checks":[],"not_applicable":[]}
for p in props:
    if p in impl and p not in NA:
        t,n=TECH[p]
        m["checks"].append({"property":p,"quick_cmd":f"bash run.sh {p} quick","thorough_cmd":f"bash run.sh {p} thorough","technique":t,"level":"other","level_note":n})
    else:
        m["not_applicable"].append({"property":p,"reason":NA.get(p,"check not built yet")})
json.dump(m,open(root+'/MANIFEST.json','w'),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"not applicable")
