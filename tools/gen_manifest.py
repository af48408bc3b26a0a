#!/usr/bin/env python3
# Writes MANIFEST.json from the table below; properties without an entry are not claimed.
import json,os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T={}
def add(id,technique,level,note): T[id]=(technique,level,note)
exec(open(os.path.join(here,'tools','claims.py')).read())
checks=[];na=[]
for l in open(os.path.join(here,'properties.jsonl')):
    id=json.loads(l)['id']
    if id in T:
        t,lev,n=T[id]
        checks.append({"property":id,"quick_cmd":"bash check.sh %s"%id,"thorough_cmd":"VERIF_TIER=thorough bash check.sh %s"%id,
          "evidence_file":"evidence/%s.json"%id,"technique":t,"level":lev,"level_note":n})
    else:
        na.append({"property":id,"reason":"check not built yet"})
m={"version":1,"setup_cmd":"bash setup.sh","checks":checks,"not_applicable":na,
 "notes":"No hooks in /repo: harnesses use the exported API and the built commands. check.sh builds the explorer and the commands from /repo's working tree. DESIGN.md describes each check; known_findings.jsonl lists repaired and known findings."}
json.dump(m,open(os.path.join(here,'MANIFEST.json'),'w'),indent=1); open(os.path.join(here,'MANIFEST.json'),'a').write('\n')
