#!/usr/bin/env python3
"""Validates planted bugs in a scratch copy and writes them to /verif/seeded.
usage: mkseed.py [id...]   (definitions in tools/seeds/*.py: lists of dicts in SEEDS)"""
import sys,os,subprocess,json,shutil,glob,tempfile
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDS=[]
for f in sorted(glob.glob(root+'/tools/seeds/*.py')):
    ns={}; exec(open(f).read(),ns); SEEDS+=ns['SEEDS']
want=sys.argv[1:]
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# exit 0: behaviour intact, nonzero: broken
here="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod HOME="${HOME:-/root}"
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
cat > "$tmp/o.json" <<E
{"Replace": {"$PWD/%(dir)szz_demo_test.go": "$here/demo_test.go.txt"}}
E
exec timeout 200 go test -count=1 -overlay "$tmp/o.json" -run TestZZDemo ./%(dir)s
'''
base=tempfile.mkdtemp(prefix='seed-')
repo=base+'/repo'
shutil.copytree('/repo',repo,symlinks=True)
def sh(c,cwd=repo,**k): return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,**k)
ok=True
for s in SEEDS:
    if want and s['id'] not in want: continue
    sh('git checkout -q -- . && git clean -fdq')
    d=root+'/seeded/'+s['id']
    shutil.rmtree(d,ignore_errors=True)
    os.makedirs(d)
    pkg=s.get('pkg','')
    dirp=pkg+'/' if pkg else ''
    open(d+'/demo.sh','w').write(DEMO%{'dir':dirp}); os.chmod(d+'/demo.sh',0o755)
    open(d+'/demo_test.go.txt','w').write(s['demo'])
    r0=sh(d+'/demo.sh')
    for (f,old,new) in s['edits']:
        t=open(repo+'/'+f).read()
        if t.count(old)!=1:
            print(s['id'],'EDIT NOT UNIQUE',f,t.count(old),repr(old[:60])); ok=False
        t=t.replace(old,new,1); open(repo+'/'+f,'w').write(t)
    diff=sh('git diff').stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    b=sh('go build ./... && go vet . ./lsp ./dbg')
    t=sh('go test ./...')
    fails=[l for l in t.stdout.splitlines() if l.startswith('--- FAIL') or l.startswith('FAIL')]
    r1=sh(d+'/demo.sh')
    good=r0.returncode==0 and b.returncode==0 and r1.returncode!=0 and not fails and diff
    print(s['id'],s['prop'],'OK' if good else 'BAD','demo clean=%d build=%d fails=%s demo patched=%d'%(r0.returncode,b.returncode,fails,r1.returncode))
    if not good:
        ok=False
        print(r0.stdout[-1500:],r0.stderr[-800:],b.stderr[-1500:],r1.stdout[-600:])
shutil.rmtree(base)
sys.exit(0 if ok else 1)
