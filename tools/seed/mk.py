#!/usr/bin/env python3
"""mk.py FILE.py [ID...]: make and confirm planted bugs.
FILE.py defines SEEDS = [dict(id, property, ops=[(file, old, new)], demo=main.go source, needs, breaks, race=bool)]."""
import sys,os,subprocess,json,shutil,runpy,re
here=os.path.dirname(os.path.abspath(__file__))
seeded=os.path.join(here,'..','..','seeded')
env=dict(os.environ,GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod',GOSUMDB='off')
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,errors='replace',env=env,**k)
S=runpy.run_path(sys.argv[1])['SEEDS']
only=sys.argv[2:]
base=json.load(open('/opt/vp/BASELINE.json'))
DEMO='''#!/bin/bash
# exit 0: the property holds; nonzero: it does not. Run in the repository.
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%%s/zzdemo/main.go": "%%s/main.go", "%%s/zzdemo/mini.go": "%%s/mini.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/overlay.json"
go build %s-overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo || exit 3
cd "$tmp" && timeout 200 ./demo
'''
for s in S:
    if only and s['id'] not in only: continue
    w='/tmp/seedwt'
    shutil.rmtree(w,ignore_errors=True)
    assert sh(f'git clone -q /repo {w}').returncode==0
    ok=True
    for f,old,new in s['ops']:
        p=os.path.join(w,f); t=open(p).read()
        if t.count(old)!=1: print(s['id'],'COUNT',f,t.count(old)); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    if sh(f'cd {w} && gofmt -l $(git diff --name-only)').stdout.strip(): sh(f'cd {w} && gofmt -w $(git diff --name-only)')
    diff=sh(f'git -C {w} diff').stdout
    # removed lines must be original ones
    orig=0
    for f in sh(f'git -C {w} diff --name-only').stdout.split():
        bl=sh(f'git -C {w} blame -s HEAD -- {f}').stdout.splitlines()
        for h in re.findall(r'^@@ -(\d+)(?:,(\d+))? ',sh(f'git -C {w} diff -U0 -- {f}').stdout,re.M):
            a=int(h[0]); n=int(h[1] or 1)
            for i in range(a,a+n):
                if bl[i-1].startswith('^'): orig+=1
                else: print(s['id'],'changes my line:',bl[i-1][:100])
    if not orig: print(s['id'],'NO ORIGINAL LINE CHANGED'); continue
    d=os.path.join(seeded,s['id']); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    open(d+'/patch.diff','w').write(diff)
    open(d+'/main.go','w').write(s['demo']); shutil.copy(here+'/mini.go',d)
    sh(f'gofmt -w {d}/main.go')
    open(d+'/demo.sh','w').write(DEMO%('-race ' if s.get('race') else '')); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':s['property'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(d+'/meta.json','w'),indent=1)
    r=sh('bash '+d+'/demo.sh',cwd=w)
    if sh('go build ./...',cwd=w).returncode: print(s['id'],'BUILD'); 
    b=sh('go test -short -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -c "^FAIL\\|^--- FAIL\\|panic"',cwd=w)
    sh('git checkout -q .',cwd=w)
    b0=sh('go test -short -vet=off -count=1 ./... 2>&1 | grep -v "no test files" | grep -c "^FAIL\\|^--- FAIL\\|panic"',cwd=w)
    u=[sh('bash '+d+'/demo.sh',cwd=w) for _ in range(s.get('repeat',3))]
    good=r.returncode not in(0,3) and all(x.returncode==0 for x in u) and b.stdout==b0.stdout
    print(s['id'],s['property'],'OK' if good else 'BAD','patched rc',r.returncode,(r.stdout+r.stderr)[-150:].strip().replace('\n',' | '),'clean rc',[x.returncode for x in u],'tests',b.stdout.strip(),b0.stdout.strip())
    for x in u:
        if x.returncode: print('   clean:',(x.stdout+x.stderr)[-300:])
    shutil.rmtree(w,ignore_errors=True)
