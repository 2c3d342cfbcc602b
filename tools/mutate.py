#!/usr/bin/env python3
"""Runs the checker against small edits of a scratch copy of /repo.
Each entry of tools/mutants.json: {name, expect: [ids that must report] (empty = must stay quiet), edits: [[file, old, new], ...]}.
usage: mutate.py [-k substring] [-p ID[,ID]] [--test]   (-p: only run these rules; default: the expected ids, or all for quiet entries)"""
import atexit,json,os,subprocess,sys,shutil,tempfile,argparse
from concurrent.futures import ThreadPoolExecutor
ap=argparse.ArgumentParser(); ap.add_argument('-k'); ap.add_argument('-p'); ap.add_argument('-j',type=int,default=3); ap.add_argument('-v',action='store_true'); ap.add_argument('-f',default=None)
a=ap.parse_args()
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ms=[]
import glob
for f in sorted(glob.glob(V+'/tools/mutants*.json')):
    if a.f and a.f not in f: continue
    ms+=json.load(open(f),strict=False)
if a.k: ms=[m for m in ms if a.k in m['name']]
if a.p:
    ps=set(a.p.split(','))
    ms=[m for m in ms if not m['expect'] or ps&set(m['expect'])]
B=tempfile.mkdtemp(prefix='bin',dir='/tmp/w')+'/checker'; shutil.copy(V+'/bin/checker',B); atexit.register(shutil.rmtree,os.path.dirname(B))
ids=subprocess.run([V+'/bin/checker','list'],capture_output=True,text=True).stdout.split()
def run(m):
    d=tempfile.mkdtemp(prefix='mut',dir='/tmp/w'); r=d+'/repo'
    try:
        shutil.copytree('/repo',r,symlinks=True,ignore=shutil.ignore_patterns('.git'))
        os.makedirs(d+'/v/evidence'); shutil.copy(V+'/known-findings.txt',d+'/v/')
        for f,o,n in m['edits']:
            s=open(r+'/'+f).read()
            if s.count(o)<1: return m['name'],'EDIT-FAILED '+f+': '+o[:60]
            open(r+'/'+f,'w').write(s.replace(o,n,1))
        sel=m['expect'] or ids
        if a.p: sel=[i for i in sel if i in a.p.split(',')] or sel
        sel=[i for i in sel if i in ids]
        if not sel: return m['name'],'norule'
        e=dict(os.environ,VERIF_REPO=r,VERIF_DIR=d+'/v')
        p=subprocess.run([B,','.join(sel)],capture_output=True,text=True,env=e)
        viol=[i for i in sel if f'VIOLATION property={i} ' in p.stdout]
        if p.returncode==2: return m['name'],'BUILD '+p.stderr[:300]
        if m['expect']:
            res='caught '+','.join(viol) if viol else 'MISSED'
        else:
            res='quiet' if not viol else 'FALSE-ALARM '+','.join(viol)
        if a.v or res.startswith('FALSE'): res+='\n'+p.stdout[-2500:]
        return m['name'],res
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(a.j) as ex:
    bad=0;n=0
    for name,res in ex.map(run,ms):
        n+=1
        if not (res.startswith('caught') or res=='quiet'): bad+=1; print(name,':',res,flush=True)
        elif a.v: print(name,':',res,flush=True)
    print(n,'entries,',bad,'unexpected')
