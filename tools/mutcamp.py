#!/usr/bin/env python3
"""Mutation campaign: samples mutants of /repo's files, keeps those that build and pass the tests, and runs the mapped checks.
usage: mutcamp.py N SEED OUT.jsonl WORKERS [file[:func-regex]...]   (engine: VERIF/build/engine, mutator: /tmp/mutate)"""
import sys,os,subprocess,json,random,shutil,tempfile,threading,queue,re,time
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N,seed,out,W=int(sys.argv[1]),int(sys.argv[2]),sys.argv[3],int(sys.argv[4])
MAP={'lexer.go':'3 2 9 1','parser.go':'8 10 9 7 4 16 21','process.go':'8 4 7 9 21 17 16 20 2 10 6 1','linter.go':'4 5 6 11','vm.go':'14 13 15 12 23','expr.go':'10 12 13 14 15 11 23 25',
 'compiler.go':'11 25 10','semantics.go':'16','range.go':'17 20 21','langspec.go':'7 8 21','lsp/lsp.go':'19 18 17 20 21 16','lsp/doc.go':'18 19','dbg/dbg.go':'22 23','symbols.go':'17 4','diag.go':'18 24','cmd/tealsarif/main.go':'24'}
files=sys.argv[5:] or list(MAP)
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOSUMDB='off',CGO_ENABLED='0')
muts=[]
for f in files:
    f,_,rx=f.partition(':')
    o=subprocess.run(['/tmp/mutate','/repo',f],capture_output=True,text=True).stdout
    l=[json.loads(x) for x in o.splitlines()]
    if rx: l=[m for m in l if re.search(rx,m['Func'])]
    muts+=l
random.Random(seed).shuffle(muts)
if not sys.argv[5:]:
    # even out over the files
    by={}
    for m in muts: by.setdefault(m['file'],[]).append(m)
    muts=[]
    while any(by.values()):
        for f in list(by):
            if by[f]: muts.append(by[f].pop())
q=queue.Queue()
for m in muts: q.put(m)
lock=threading.Lock(); done=[0]
def work(i):
    base=tempfile.mkdtemp(prefix='mut%d-'%i); repo=base+'/repo'
    shutil.copytree('/repo',repo,symlinks=True)
    def sh(c,t=120):
        try: return subprocess.run(c,shell=True,cwd=repo,env=env,capture_output=True,text=True,timeout=t)
        except subprocess.TimeoutExpired: return None
    while True:
        with lock:
            if done[0]>=N: break
        try: m=q.get_nowait()
        except queue.Empty: break
        p=repo+'/'+m['file']; orig=open(p,'rb').read()
        open(p,'wb').write(orig[:m['From']]+m['Repl'].encode()+orig[m['To']:])
        r=sh('go build ./... && timeout 60 go test ./... >/dev/null')
        if r is not None and r.returncode==0:
            with lock:
                if done[0]>=N: break
                done[0]+=1
            m['caught']=None; m['tried']=[]
            t=time.time()
            for k in MAP[m['file']].split():
                pr='p%02d'%int(k)
                r=sh('%s/build/engine -verif %s -repo %s -prop %s -noev -first -time 60 -j %d'%(root,root,repo,pr,8//W),240)
                m['tried'].append((pr,r.returncode if r else 'timeout'))
                if r and r.returncode==1:
                    m['caught']=pr; m['msg']=[x.strip() for x in r.stdout.splitlines() if x.startswith('  ')][:1]; break
                if r and r.returncode not in (0,1): m.setdefault('err',[]).append((r.stdout+r.stderr)[-400:])
            m['secs']=round(time.time()-t)
            with lock: open(out,'a').write(json.dumps(m)+'\n')
        open(p,'wb').write(orig)
    shutil.rmtree(base)
ts=[threading.Thread(target=work,args=(i,)) for i in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
