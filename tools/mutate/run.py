#!/usr/bin/env python3
"""run.py MUTS.jsonl OUT.jsonl N [WORKERS] [SEED]: apply a random sample of N mutants to scratch copies of /repo, drop those
that do not build or that the tests catch, and run the checks until one reports a violation."""
import json, os, random, subprocess, sys, tempfile, shutil, threading, queue, time
muts=[json.loads(l) for l in open(sys.argv[1])]
out=sys.argv[2]; N=int(sys.argv[3]); W=int(sys.argv[4]) if len(sys.argv)>4 else 3
random.seed(int(sys.argv[5]) if len(sys.argv)>5 else 1)
only=os.environ.get('ONLY','').split(',') if os.environ.get('ONLY') else None
weight={'driver_pool.go':9,'connection_pool_factory.go':9,'connection/transaction.go':6,'routing/queue.go':9,'driver_routing_pool.go':9,'connection/result.go':3,
 'routing/pool.go':4,'connection/connection.go':3,'routing/routing_handler.go':3,'client.go':2,'opt.go':3,'errors/errors.go':5,'log/log.go':2,'connection/const.go':0.3,'encoding/encode_consts/const.go':0.3}
done=set()
if os.path.exists(out):
    for l in open(out):
        d=json.loads(l); done.add((d['file'],d['From'],d['To'],d['New']))
muts=[m for m in muts if (m['file'],m['From'],m['To'],m['New']) not in done and (not only or m['file'] in only)]
muts.sort(key=lambda m: random.random()**(1/weight.get(m['file'],0.6)), reverse=True)
muts=muts[:N]
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOSUMDB='off',VERIF_SEED='1',GOMAXPROCS='4')
E='C31 C01 C02 C03 C04 C05 C12 C06 C07 C08 C11 C24 C27 C29 C13 C14 C09 C10'.split()
C='C06 C07 C10 C12 C09 C13 C08 C14 C11 C02 C01 C18 C17 C19 C16 C24 C26 C04 C25 C29 C27 C15 C05 C03 C20 C21 C22 C23 C30 C31 C28'.split()
P='C30 C17 C18 C19 C16 C26 C24 C25 C15 C14 C20 C21 C22 C23 C12 C28'.split()
R='C22 C30 C20 C21 C23 C24 C25 C26 C29 C15 C28'.split()
O='C26 C24 C25 C14 C11 C15 C17 C20 C12 C28'.split()
def order(f):
    if f.startswith('encoding'): return E+['C28']
    if f.startswith('routing') or f=='driver_routing_pool.go': return R
    if f in('driver_pool.go','connection_pool_factory.go'): return P
    if f in('opt.go','client.go','driver.go','interface.go','bolt_mode/consts.go'): return O
    if f.startswith('errors'): return ['C29']+C
    if f.startswith('log'): return ['C28']+C[:6]
    if f=='connection/result.go': return ['C27']+C
    return C
race={'C16','C17','C19','C21','C22','C30'}
lock=threading.Lock()
def sh(c,cwd,t):
    try: return subprocess.run(c,shell=True,cwd=cwd,env=env,capture_output=True,text=True,errors='replace',timeout=t)
    except subprocess.TimeoutExpired as e: 
        r=subprocess.CompletedProcess(c,124,'',''); return r
def fails(cwd):
    r=sh('go test ./... 2>&1 | grep -E "^ *--- FAIL|^FAIL|panic" | sed "s/(.*//; s/\\t[0-9.]*s$//" | sort -u',cwd,120); return r.stdout
def work(q,base):
    w=tempfile.mkdtemp(prefix='mutw-',dir='/tmp'); repo=w+'/repo'
    subprocess.run(['git','clone','-q','/repo',repo],check=True)
    h=open('/verif/harness/go.mod').read().replace('=> /repo','=> '+repo); open(w+'/m.mod','w').write(h); shutil.copy('/verif/harness/go.sum',w+'/m.sum')
    shutil.copytree('/verif/harness',w+'/harness')
    try:
      while True:
        try: m=q.get_nowait()
        except queue.Empty: return
        p=repo+'/'+m['file']; s=open(p,'rb').read()
        t=s[:m['From']]+m['New'].encode()+s[m['To']:]
        open(p,'wb').write(t); t0=time.time(); res='?'; info=''
        try:
            if sh('go build ./...',repo,200).returncode: res='nobuild'; continue
            if fails(repo)!=base: res='tests'; continue
            built={}
            res='SURVIVED'
            for c in order(m['file']):
                k=c in race
                if k not in built:
                    r=sh(f'go build {"-race" if k else ""} -modfile={w}/m.mod -o {w}/v{int(k)} .',w+'/harness',300); built[k]=r.returncode
                    if r.returncode: res='nobuild'; info=r.stderr[-200:]; break
                home=w+'/home'; shutil.rmtree(home,ignore_errors=True); os.mkdir(home); shutil.copy('/verif/known-findings.txt',home)
                r=sh(f'timeout -k 5 300 {w}/v{int(k)} check {c} quick {home}',w,400)
                if r.returncode==1 and 'VIOLATION' in r.stdout:
                    L=r.stdout.splitlines(); i=[j for j,l in enumerate(L) if l.startswith('VIOLATION')][0]
                    res='killed '+c; info=(L[i+1] if i+1<len(L) else '')[:160]; break
                if r.returncode not in(0,): info+=f' {c}:rc{r.returncode}'
        finally:
            open(p,'wb').write(s)
            m2=dict(m,res=res,info=info,sec=round(time.time()-t0))
            with lock: open(out,'a').write(json.dumps(m2)+'\n')
    finally: shutil.rmtree(w,ignore_errors=True)
base=fails('/repo')
q=queue.Queue()
for m in muts: q.put(m)
ts=[threading.Thread(target=work,args=(q,base)) for _ in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]
