#!/usr/bin/env python3
"""run.py OUT FRACTION LANES [file...]: applies a random sample of small code changes (see main.go) to a copy of /repo and runs the
checks of the properties that concern the file; survivors show where the checks are blind (or the change is without effect)."""
import sys, os, subprocess, random, threading, queue, shutil
out, frac, lanes = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
files = sys.argv[4:]
P = {'adjstop':'C29 C28','agencydup':'C14 C28 C25 C01 C33','completegeo':'C26','frequencym':'C10 C01','idmin':'C11 C12 C28 C33','orphanmin':'C05','parentaver':'C31',
 'platformcode':'C31','priorityq':'C30','processor.go':'C01 C30','routedup':'C13 C28 C33','servicecaldates':'C08','serviceduplicate':'C07 C33','servicemin':'C06 C33','servicenon':'C09',
 'shapedup':'C17 C33','shapeidx':'C17','shapemin':'C18 C28 C33','shaperemeas':'C19 C33','shapesnap':'C21 C28','stopcluster':'C30','stopdup':'C15 C28 C33 C30','stopparent':'C31 C02',
 'stoprecl':'C30','stoptimerem':'C20 C21 C33','toofast':'C32','tripcopier':'C08 C09 C16','tripdup':'C16 C01 C28 C33','util':'C08 C09 C16 C15 C20 C17 C18 C32 C21 C30 C31 C06 C07 C26 C27 C10',
 'gtfstidy.go':'C24 C34 C03 C04 C23 C22 C25 C12 C11 C26 C27 C28 C31 C01'}
env = dict(os.environ, PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'], GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', GOWORK='off', GOSUMDB='off')
R = '/tmp/mutl'
shutil.rmtree(R, ignore_errors=True); os.makedirs(R)
subprocess.check_call(['go','build','-buildvcs=false','-o',R+'/harness','.'], cwd='/verif/harness', env=env)
subprocess.check_call(['go','build','-o',R+'/mutate','.'], cwd='/verif/tools/mutate', env=env)
if not files:
    files = ['gtfstidy.go'] + sorted('processors/'+f for f in os.listdir('/repo/processors') if f.endswith('.go') and not f.endswith('_test.go'))
ms = [l.split('\t') for l in subprocess.run([R+'/mutate','list','/repo']+files, capture_output=True, text=True).stdout.splitlines() if l.count('\t')==3]
random.seed(int(os.environ.get('MSEED','1')))
ms = [m for m in ms if random.random() < frac]
random.shuffle(ms)
q = queue.Queue()
for m in ms: q.put(m)
lock = threading.Lock(); n = [0, 0, 0]
o = open(out, 'a')
def lane(k):
    d, root = f'{R}/r{k}', f'{R}/v{k}'
    subprocess.check_call(['cp','-a','/repo',d])
    os.makedirs(root); shutil.copytree('/verif/findings', root+'/findings'); shutil.copy('/verif/known_findings.txt', root)
    while True:
        try: f, i, line, desc = q.get_nowait()
        except queue.Empty: return
        subprocess.run(['git','checkout','-q','--','.'], cwd=d)
        subprocess.run([R+'/mutate','apply',d,f,i])
        b = subprocess.run(['go','build','-buildvcs=false','-o','/dev/null','.'], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode:
            with lock: n[2] += 1
            continue
        props = next(v for kk, v in P.items() if kk in f).split()
        res = 'SURVIVED'
        for p in props:
            cases = os.environ.get('MCASES', '600')
            if p == 'C33': cases = '40'
            if p == 'C24': cases = '300'
            try:
                r = subprocess.run([R+'/harness', p, 'quick'], env=dict(env, VERIF_ROOT=root, GTFSTIDY_REPO=d, VERIF_CASES=cases, VERIF_NOSHRINK='1', VERIF_WORKERS=os.environ.get('MWORKERS','3')), capture_output=True, text=True, timeout=240)
                if r.returncode == 1 and 'VIOLATION' in r.stdout: res = p; break
                if r.returncode not in (0, 1): res = 'RC%d %s' % (r.returncode, p); break
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT ' + p; break
        with lock:
            n[0] += 1; n[1] += res == 'SURVIVED'
            o.write(f'{res}\t{f}:{line}\t{i}\t{desc}\n'); o.flush()
ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
[t.start() for t in ts]; [t.join() for t in ts]
o.write('# %d mutants, %d survived, %d do not build\n' % tuple(n)); o.close()
shutil.rmtree(R, ignore_errors=True)
