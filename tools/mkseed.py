#!/usr/bin/env python3
"""mkseed.py spec.py : creates /verif/seeded/<id> from a spec (ID, PROP, NEEDS, BREAKS, EDITS, DEMO[, PKG]) and confirms it in a scratch copy."""
import sys,os,subprocess,shutil,json,runpy,tempfile
V='/verif'
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
for sp in sys.argv[1:]:
    g=runpy.run_path(sp); i=g['ID']
    d=tempfile.mkdtemp(prefix='seed',dir='/tmp/w'); r=d+'/repo'
    try:
        sh(f'cp -a /repo {r}','/')
        for f,o,n in g['EDITS']:
            s=open(r+'/'+f).read()
            assert s.count(o)>=1,(i,f,o)
            open(r+'/'+f,'w').write(s.replace(o,n,1))
        patch=sh('git diff',r).stdout
        out=f'{V}/seeded/{i}'; os.makedirs(out,exist_ok=True)
        open(out+'/patch.diff','w').write(patch)
        pkg=g.get('PKG','.')
        open(out+'/demo_test.go.txt','w').write(g['DEMO'].lstrip())
        open(out+'/demo.sh','w').write(f'''#!/bin/bash
# Runs the demonstration test inside the package (through an overlay) on the tree in the current directory.
D=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
T=$(mktemp -d)
trap 'rm -rf -- "$T"' EXIT
printf '{{"Replace":{{"%s":"%s"}}}}' "$PWD/{pkg}/zz_verif_demo_test.go" "$D/demo_test.go.txt" > "$T/o.json"
timeout 200 go test -overlay "$T/o.json" -count=1 -run TestVerifDemo ./{pkg}
''')
        os.chmod(out+'/demo.sh',0o755)
        json.dump({"property":g['PROP'],"needs":g['NEEDS'],"what_it_breaks":g['BREAKS']},open(out+'/meta.json','w'),indent=1)
        a=sh(f'bash {out}/demo.sh','/repo'); b=sh(f'bash {out}/demo.sh',r)
        ok=a.returncode==0 and b.returncode!=0
        e=dict(os.environ); 
        base=json.load(open('/opt/vp/BASELINE.json'))
        tj=sh(". /opt/vp/env.sh; go test -json ./... ",r).stdout
        passed=set()
        for l in tj.splitlines():
            try: j=json.loads(l)
            except: continue
            if j.get('Action')=='pass' and j.get('Test'): passed.add(j['Package']+'/'+j['Test'])
        st=base.get('stable') or base.get('tests') or base
        names=st if isinstance(st,list) else list(st)
        miss=[n for n in names if n not in passed]
        print(i,'OK' if ok and not miss else 'BAD','demo clean',a.returncode,'patched',b.returncode,'missing',miss[:3], '' if ok else a.stdout[-800:]+b.stdout[-300:])
        if '-v' in os.environ.get('SEEDV',''): print(b.stdout[-600:])
    finally: shutil.rmtree(d)
