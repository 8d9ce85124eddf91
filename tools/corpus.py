#!/usr/bin/env python3-vt
"""Runs the analyser on edited copies of /repo.
usage: corpus.py bugs|refactors [name-substring]   (development aid; no check uses it)
Each entry: name, properties expected to fire (bugs) / all must stay quiet, file, [(old,new)...]"""
import sys,os,subprocess,shutil,importlib.util,concurrent.futures as cf,time
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def load(n):
    ns={}
    exec(open(f'{V}/corpus/{n}.py').read(),ns); return ns['ENTRIES']
ENV=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOTOOLCHAIN='local')
ALL=[l.split()[0] for l in subprocess.check_output([f'{V}/bin/goslidecheck','-list'],text=True).splitlines()]
import re,json
def analysed(i):
    try: return set(json.load(open(f'{V}/evidence/{i}.json'))['coverage']['functions_analysed'])
    except Exception: return None
REACH={i:analysed(i) for i in ALL}
LINTS={'C06','C07','C12','C26','C33'}   # module-wide rules
def touched(e):
    """functions (pkg.Type.Name) the edits of an entry lie in; None if unknown"""
    out=set()
    for ed in e['edits']:
        f=ed.get('file',e.get('file')); s=open('/repo/'+f).read()
        pk=os.path.dirname(f) or 'main'
        fs=[(m.start(),m[2],m[3]) for m in re.finditer(r'^func (\(\w+ \*?(\w+)\) )?(\w+)\(',s,re.M)]
        at=-1
        while True:
            at=s.find(ed['old'],at+1)
            if at<0: break
            a,b=at,at+len(ed['old'])
            inside=[g for k,g in enumerate(fs) if g[0]<b and (k+1==len(fs) or fs[k+1][0]>a)]
            if not inside: return None
            for g in inside: out.add('.'.join(x for x in (pk,g[1],g[2]) if x))
    return out
def relevant(e):
    t=touched(e)
    if t is None or ONLY or FULL: return ALL
    return [i for i in ALL if i in LINTS or REACH[i] is None or any(f in g or g in f for f in t for g in REACH[i])]
def one(kind,e):
    name=e['name']; d=f'/tmp/corpus.{os.getpid()}/{name}'
    os.makedirs(d,exist_ok=True)
    subprocess.run(f'cd /repo && git archive HEAD | tar x -C {d}',shell=True,check=True)
    try:
        for ed in e['edits']:
            f=ed.get('file',e.get('file')); p=f'{d}/{f}'; s=open(p).read()
            n=s.count(ed['old'])
            if n<1 or (n>1 and not ed.get('all')): return name,'BADEDIT(%d) %r'%(n,ed['old'][:50]),''
            s=s.replace(ed['old'],ed['new']); open(p,'w').write(s)
        b=subprocess.run('gofmt -l . ; go vet ./... && go test ./... 2>&1 | grep -v "no test files"',shell=True,cwd=d,env=ENV,capture_output=True,text=True)
        if 'FAIL' in b.stdout or b.returncode not in (0,): 
            t=b.stdout+b.stderr
            if 'FAIL' in t or 'vet:' in t: return name,'TESTS/BUILD: '+t[-300:],''
        ids=relevant(e)
        if ONLY: ids=ONLY
        if kind=='bugs' and not FULL: ids=[i for i in e['props'] if i in ALL]
        r=subprocess.run([f'{V}/bin/goslidecheck','-all']+ids,env=dict(ENV,GOSLIDE_REPO=d),capture_output=True,text=True,timeout=1800) if ids else None
        if r is None: return name,'NORULE',''
        fired=[];cur=None;det=''
        for l in r.stdout.splitlines():
            if l.startswith('  FAILED'):
                if cur not in fired: fired.append(cur)
                if len(det)<1500: det+=cur+l[:420]+'\n'
            elif l[:1]=='C': cur=l.split()[0]
        return name,fired,det
    finally:
        shutil.rmtree(d,ignore_errors=True)
kind=sys.argv[1]; pat=sys.argv[2] if len(sys.argv)>2 else ''
ONLY=os.environ.get('ONLY'); ONLY=ONLY.split(',') if ONLY else None
FULL=os.environ.get('FULL')
es=[e for e in load(kind) if pat in e['name'] or pat in e.get('props',[])]
bad=0
with cf.ThreadPoolExecutor(6) as ex:
    for e,(name,fired,det) in zip(es,ex.map(lambda e:one(kind,e),es)):
        if kind=='bugs':
            exp=[i for i in e['props'] if i in ALL]
            ok=isinstance(fired,list) and any(i in fired for i in exp)
            if not ok: bad+=1
            print('ok  ' if ok else 'MISS',name,e['props'],fired)
            if os.environ.get('V'): print(det)
        else:
            ok=fired==[]
            if not ok: bad+=1
            print('ok  ' if ok else 'NOISE',name,fired,flush=True)
            if not ok: print(det)
print(len(es),'entries',bad,'bad')
shutil.rmtree(f'/tmp/corpus.{os.getpid()}',ignore_errors=True)
