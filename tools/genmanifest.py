#!/usr/bin/env python3
import json,subprocess,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids=subprocess.run([V+'/bin/checker','list'],capture_output=True,text=True).stdout.split()
props=[json.loads(l) for l in open(V+'/properties.jsonl')]
NA=json.load(open(V+'/tools/na.json'))
T=json.load(open(V+'/tools/technique.json'))
checks=[];na=[]
for p in props:
    i=p['id']
    if i in ids:
        t=T.get(i,{})
        checks.append({"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough",
          "technique":t.get('technique','path-sensitive dataflow with value numbering over SSA'),
          "level":"other","level_note":t.get('note','Static: decides the structural clauses named in DESIGN.md for every path of the analysed functions; nothing is executed.')})
    else:
        na.append({"property":i,"reason":NA.get(i,"no check has been built for this property yet")})
m={"version":1,"setup_cmd":"bash checker/build.sh","checks":checks,"not_applicable":na,"notes":"All checks are static analyses of /repo's current source by the checker in /verif/checker (Go, x/tools SSA); fixes of genuine defects are the fix: commits listed in known-findings.txt."}
json.dump(m,open(V+'/MANIFEST.json','w'),indent=1)
print(len(checks),'checks',len(na),'na')
