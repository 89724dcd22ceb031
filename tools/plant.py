#!/usr/bin/env python3
"""Builds, confirms and tries planted bugs.

  plant.py make ID...   write seeded/ID from tools/plants/ID.py and confirm it
  plant.py try ID...    run the property's check against the planted bug
A definition holds PROP, EDITS [(file, old, new)], PKG, DEMO (a Go test file
with TestZZDemo), NEEDS, BREAKS. Everything happens in copies under /tmp.
"""
import sys,os,subprocess,shutil,json,tempfile,time,re
V='/verif'
ENV=dict(os.environ,HOME='/root',PATH='/opt/veriftools/go1.24.13/bin:'+os.environ['PATH'],GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
DEMO='''#!/bin/bash
# Run in /repo after the build: exit 0 where the property holds.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" >"$t/overlay.json"
export GOFLAGS=-mod=mod GOPROXY=off PATH="$PATH:/opt/veriftools/go1.24.13/bin"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(cmd,cwd=None,env=ENV,timeout=900):
    p=subprocess.run(cmd,shell=True,cwd=cwd,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=timeout)
    return p.returncode,p.stdout.decode(errors='replace')
def load(i):
    g={}; exec(open(V+'/tools/plants/%s.py'%i).read(),g); return g
def copy():
    d=tempfile.mkdtemp(prefix='plant.',dir='/tmp'); sh('cp -a /repo %s/repo'%d); return d,d+'/repo'
def tests(r):
    rc,o=sh("go test -json -vet=off -count=1 -parallel 1 -timeout 10m $(go list ./... | grep -vx github.com/iand/starbow/internal/query)",r)
    st={}
    for l in o.splitlines():
        try: e=json.loads(l)
        except Exception: continue
        if e.get('Test') and e['Action'] in('pass','fail','skip'): st[e['Package']+'::'+e['Test']]=e['Action']
    return rc,st,o
def make(i):
    g=load(i); d,r=copy()
    try:
        out=V+'/seeded/'+i; os.makedirs(out,exist_ok=True)
        open(out+'/demo_test.go','w').write(g['DEMO'].lstrip())
        open(out+'/demo.sh','w').write(DEMO%{'pkg':g['PKG']}); os.chmod(out+'/demo.sh',0o755)
        json.dump({'property':g['PROP'],'needs':g['NEEDS'],'what_it_breaks':g['BREAKS']},open(out+'/meta.json','w'),indent=1)
        rc,o=sh(out+'/demo.sh',r)
        if rc: print(i,'FAIL: demo on the clean tree\n',o[-1500:]); return False
        for f,a,b in g['EDITS']:
            s=open(r+'/'+f).read()
            if s.count(a)!=1: print(i,'FAIL: edit matches',s.count(a),'times:',a); return False
            open(r+'/'+f,'w').write(s.replace(a,b))
        rc,o=sh('gofmt -l $(git diff --name-only)',r)
        if o.strip(): sh('gofmt -w $(git diff --name-only)',r)
        rc,p=sh('git diff',r); open(out+'/patch.diff','w').write(p)
        # which base lines does it touch, and whose are they
        rc,o=sh('go build ./... && go vet ./... || true; go build ./...',r)
        if rc: print(i,'FAIL: build\n',o); return False
        rc,st,o=tests(r)
        bad=[k for k,v in st.items() if v=='fail']
        if rc or bad: print(i,'FAIL: tests',bad,o[-600:] if not bad else ''); return False
        rc,o=sh(out+'/demo.sh',r)
        if rc==0: print(i,'FAIL: demo passes with the patch'); return False
        print(i,'ok')
        return True
    finally: shutil.rmtree(d)
def attempt(i,tier='quick'):
    p=json.load(open(V+'/seeded/%s/meta.json'%i))['property']; d,r=copy()
    try:
        rc,o=sh('git apply %s/seeded/%s/patch.diff'%(V,i),r)
        if rc: print(i,'does not apply',o); return
        t=time.time()
        env=dict(os.environ,VERIF_REPO=r)
        rc,o=sh('%s/check %s %s'%(V,p,tier),V,env,1000)
        v=[l for l in o.splitlines() if l.startswith('VIOLATION') or l.startswith('violated')]
        print(i,p,'CAUGHT' if rc==1 and any(l.startswith('VIOLATION property=%s '%p) for l in v) else 'MISSED rc=%d'%rc,'%.0fs'%(time.time()-t),(v[0][:170] if v else o[-300:]))
        sys.stdout.flush()
    finally: shutil.rmtree(d)
if sys.argv[1]=='make':
    for i in sys.argv[2:]: make(i)
else:
    for i in sys.argv[2:]: attempt(i, os.environ.get('TIER','quick'))
