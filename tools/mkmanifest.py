#!/usr/bin/env python3
"""Write MANIFEST.json from the list of checks below."""
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T=json.load(open(V+'/tools/checks.json'))
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
checks=[]; na=[]
for p in props:
    i=p['id']
    if i in T:
        t=T[i]
        checks.append({"property":i,"quick_cmd":"./check.sh "+i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh "+i,
          "evidence_file":"evidence/%s.json"%i,"technique":t[0],"level":t[1],"level_note":t[2]})
    else:
        na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"./setup.sh","checks":checks,"not_applicable":na}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1); open(V+'/MANIFEST.json','a').write("\n")
