#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from corpus/seeds.py after confirming each planted bug:
patch builds, stable tests pass, demo passes clean and fails patched.  usage: mkseed.py [substring]
Also reports whether the registered check fires (development aid; no check uses it)."""
import sys,os,subprocess,shutil,json
import concurrent.futures as cf
V='/verif'
ns={}; exec(open(f'{V}/corpus/seeds.py').read(),ns); SEEDS=ns['SEEDS']
pat=sys.argv[1] if len(sys.argv)>1 else ''
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
DEMO='''#!/bin/sh
# usage: demo.sh  (cwd = root of the goslide tree). Runs an in-package test through an overlay.
d=$(cd "$(dirname "$0")" && pwd) || exit 3
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
export GOFLAGS= GOPROXY=off GOTOOLCHAIN=local
printf '{"Replace":{"%s/{PKGD}zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$d" > "$t/o.json"
go test -vet=off -count=1 -timeout {TMO}s -overlay "$t/o.json" -run '^TestZZDemo$' ./{PKG}
'''
base=json.load(open('/opt/vp/BASELINE.json'))
def sh(c,cwd): return subprocess.run(c,shell=True,cwd=cwd,env=ENV,capture_output=True,text=True,timeout=600)
def one(s):
    n=s['id']; w=f'/tmp/mkseed.{os.getpid()}/{n}'
    os.makedirs(w); 
    try:
        sh(f'git -C /repo archive HEAD | tar x -C {w}; git init -q . ; git add -A; git -c user.name=x -c user.email=x@x commit -qm x',w)
        o=f'{V}/seeded/{n}'
        shutil.rmtree(o,ignore_errors=True); os.makedirs(o)
        pkg=s['pkg']; pd=pkg+'/' if pkg!='.' else ''
        open(o+'/demo.sh','w').write(DEMO.replace('{PKGD}',pd).replace('{PKG}',pkg).replace('{TMO}',str(s.get('tmo',120)))); os.chmod(o+'/demo.sh',0o755)
        open(o+'/demo_test.go','w').write(s['demo'])
        r0=sh(f'sh {o}/demo.sh',w)
        for f,old,new in s['edits']:
            p=f'{w}/{f}'; t=open(p).read()
            if t.count(old)!=1: return n,'BADEDIT %d %r'%(t.count(old),old[:60])
            open(p,'w').write(t.replace(old,new))
        open(o+'/patch.diff','w').write(sh('git diff',w).stdout)
        json.dump({'property':s['prop'],'needs':s['needs'],'what_it_breaks':s['breaks']},open(o+'/meta.json','w'),indent=1)
        b=sh('gofmt -l .; go vet ./... && go test -count=1 ./... | grep -v "no test files"',w)
        t=b.stdout+b.stderr
        if 'FAIL' in t or 'vet:' in t: return n,'TESTS '+t[-400:]
        r1=sh(f'sh {o}/demo.sh',w)
        msg=[]
        if r0.returncode: msg.append('DEMO FAILS CLEAN '+(r0.stdout+r0.stderr)[-900:])
        if r1.returncode==0: msg.append('DEMO PASSES PATCHED')
        elif 'build failed' in r1.stdout+r1.stderr: msg.append('DEMO BUILD '+(r1.stdout+r1.stderr)[-400:])
        c=subprocess.run([f'{V}/bin/goslidecheck','-all',s['prop']],env=dict(ENV,GOSLIDE_REPO=w),capture_output=True,text=True,timeout=900)
        msg.append('caught' if 'FAILED' in c.stdout else 'NOT CAUGHT')
        return n,' '.join(msg)
    finally: shutil.rmtree(w,ignore_errors=True)
with cf.ThreadPoolExecutor(6) as ex:
    for n,m in ex.map(one,[s for s in SEEDS if pat in s['id'] or pat==s['prop']]): print(n,m,flush=True)
shutil.rmtree(f'/tmp/mkseed.{os.getpid()}',ignore_errors=True)
