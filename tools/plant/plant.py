#!/usr/bin/env python3
"""plant.py ID: takes /verif/tools/plant/spec/ID.py (PROPERTY, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO) and builds /verif/seeded/ID
after confirming it in a scratch copy."""
import sys,os,subprocess,shutil,json,tempfile
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
W='/tmp/plantw'
def fresh():
    if not os.path.isdir(W): subprocess.check_call(['cp','-a','/repo',W])
    h=sh('git rev-parse HEAD','/repo').stdout.strip()
    r=sh(f'git checkout -q -- . && git fetch -q /repo && git checkout -q {h}',W)
    if r.returncode: sys.exit('fresh: '+r.stderr)
env=dict(os.environ,PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'],GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local',GOWORK='off')
def one(i):
    ns={}
    exec(open(f'/verif/tools/plant/spec/{i}.py').read(),ns)
    fresh()
    for f,old,new in ns['EDITS']:
        p=f'{W}/{f}'; s=open(p).read()
        if s.count(old)!=1: print(i,'EDIT matches',s.count(old),f,old[:60]); return False
        open(p,'w').write(s.replace(old,new))
    base='74b4603'
    mine=False
    for f in {e[0] for e in ns['EDITS']}:
        nums=[]
        for l in sh(f'git diff -U0 -- {f}',W).stdout.splitlines():
            if l.startswith('@@'):
                a=l.split()[1][1:].split(','); a,b=int(a[0]),int(a[1]) if len(a)>1 else 1
                nums+=range(a,a+max(b,1))
        for n in nums:
            c=sh(f'git blame -s -L {n},{n} HEAD -- {f}','/repo').stdout.split()[0].lstrip('^')
            if not c.startswith(base): mine=True; print(i,'changes line of my own commit',f,n,c)
    d=f'/verif/seeded/{i}'
    os.makedirs(d,exist_ok=True)
    diff=sh('git diff',W).stdout
    open(f'{d}/patch.diff','w').write(diff)
    shutil.copy('/verif/tools/plant/lib.sh',d)
    open(f'{d}/demo.sh','w').write('#!/bin/bash\n. "$(dirname "$0")/lib.sh"\n'+ns['DEMO'].lstrip('\n'))
    os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':ns['PROPERTY'],'needs':ns['NEEDS'],'what_it_breaks':ns['BREAKS']},open(f'{d}/meta.json','w'),indent=1)
    ok=not mine
    r=sh('go build -buildvcs=false ./... && go vet . ./processors >/dev/null 2>&1; go build -buildvcs=false ./...',W,env=env)
    if r.returncode: print(i,'does not build',r.stderr[-500:]); ok=False
    r=sh('go test -vet=off -count=1 ./... 2>&1 | tail -15',W,env=env)
    if 'FAIL' in r.stdout: print(i,'tests fail',r.stdout[-600:]); ok=False
    r=sh(f'bash {d}/demo.sh',W,env=env)
    if r.returncode==0 or r.returncode==99: print(i,'demo passes with patch',r.stdout[-300:],r.stderr[-300:]); ok=False
    msg=r.stdout.strip()[-100:]
    r=sh(f'bash {d}/demo.sh','/repo',env=env)
    if r.returncode!=0: print(i,'demo fails on unchanged',r.stdout[-300:],r.stderr[-300:]); ok=False
    r=sh(f'git apply --check {d}/patch.diff','/repo')
    if r.returncode: print(i,'patch does not apply',r.stderr); ok=False
    print(i,'OK' if ok else 'BAD',msg)
    if not ok: shutil.rmtree(d)
    return ok
def record(i,p,ok):
    f='/verif/tools/caught.json'
    c=json.load(open(f)) if os.path.exists(f) else {}
    s=set(c.get(i,'').split())-{p}
    if ok: s.add(p)
    c[i]=' '.join(sorted(s))
    json.dump(c,open(f,'w'),indent=1,sort_keys=True)
def catch(i,full=False):
    m=json.load(open(f'/verif/seeded/{i}/meta.json'))
    fresh()
    r=sh(f'git apply /verif/seeded/{i}/patch.diff',W)
    if r.returncode: print(i,'apply',r.stderr); return
    props=[m['property']] if not full else sh('bash run.sh list','/verif').stdout.split()
    for p in props:
        r=sh(f'bash run.sh {p} quick','/verif',env=dict(env,GTFSTIDY_REPO=W))
        v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        l=r.stdout.strip().splitlines()
        record(i,p,r.returncode==1 and bool(v))
        first=[x for x in l if x.startswith('case ')]
        print(i,p,'CAUGHT' if r.returncode==1 and v else f'MISSED rc={r.returncode}',(first[0][:160] if first else ''),(r.stderr[-200:] if r.returncode not in(0,1) else ''),flush=True)
if __name__=='__main__':
    a=sys.argv[1:]
    if a[0]=='catch':
        ids=a[1:] or sorted(os.listdir('/verif/seeded'))
        for i in ids: catch(i)
    elif a[0]=='catchall':
        for i in a[1:]: catch(i,True)
    else:
        for i in (a if a!=['all'] else sorted(x[:-3] for x in os.listdir('/verif/tools/plant/spec') if x.endswith('.py'))): one(i)
