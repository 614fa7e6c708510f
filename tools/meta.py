#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (tools/props.py)."""
import json,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from props import PROPS,NA
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
scen=set()
for f in os.listdir(V+'/sim/props'):
    t=open(V+'/sim/props/'+f).read()
    import re
    scen|=set(re.findall(r'Reg\s+\w+\(\{"(\w+)"',t))|set(re.findall(r'Reg\s+\w+\(Scenario\{"(\w+)"',t))
with open(V+'/properties.jsonl','w') as o:
    for p in PROPS+NA:
        assert len(p['title'])<=80,p['id']
        o.write(json.dumps({k:v for k,v in p.items() if k not in('note','reason','tech')})+'\n')
checks=[]
for p in PROPS:
    assert p['id'] in scen,p['id']
    checks.append({"property":p['id'],"quick_cmd":f"./check.sh {p['id']} quick","thorough_cmd":f"./check.sh {p['id']} thorough","technique":p.get('tech',"deterministic simulation with fault injection: seeded search over schedules, histories and fault sequences"),"level":"exploration","level_note":p['note']})
missing=scen-{p['id'] for p in PROPS}
if missing: print('scenarios without a property:',sorted(missing))
m={"version":1,"setup_cmd":"./setup.sh","hooks":{"guard":"none","enable":"no hooks: the simulator interposes libc, the allocator and compiler coverage callbacks at link time; /repo's sources are compiled unmodified","source_commits":[]},"checks":checks,"not_applicable":[{"property":p['id'],"reason":p['reason']} for p in NA],"notes":"One simulator binary (sim/), rebuilt by every check from /repo's working tree; see DESIGN.md. Known findings and repairs: known_findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
