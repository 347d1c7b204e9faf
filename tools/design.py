#!/usr/bin/env python3
# writes the per-property table of DESIGN.md from the checks' rules
import re,json,os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rules={}
for f in sorted(os.listdir(root+'/checker')):
    if f.endswith('.go'):
        s=open(root+'/checker/'+f).read()
        for m in re.finditer(r'id:\s*"(C\d\d)",(?:[^"]|"[a-z, ]*")*?rule:\s*"((?:[^"\\\\]|\\\\.)*)"',s): rules[m.group(1)]=(f,m.group(2))
from manifest_data import NA
out=[]
seeds={}
for d in sorted(os.listdir(root+'/seeded')):
    m=json.load(open(root+'/seeded/'+d+'/meta.json')); seeds.setdefault(m['property'],[]).append(d)
for l in open(root+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    if i in NA: out.append(f"* **{i} {p['title']}** - not applicable: {NA[i]}")
    elif i in rules: out.append(f"* **{i} {p['title']}** (`{rules[i][0]}`) - {rules[i][1]}.  Planted bugs: {', '.join(seeds.get(i,[])) or 'none'}.")
    else: out.append(f"* **{i} {p['title']}** - no check.")
d=open(root+'/DESIGN.md').read()
a,b=d.index('<!-- table -->'),d.index('<!-- /table -->')
open(root+'/DESIGN.md','w').write(d[:a]+'<!-- table -->\n'+'\n'.join(out)+'\n'+d[b:])
