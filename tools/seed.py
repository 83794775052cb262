#!/usr/bin/env python3
"""seed.py ID [--check]: validates a planted bug: builds, tests and runs the demo in /repo with and without the patch; --check also runs the property's check on a patched copy"""
import sys,subprocess,json,os,shutil
i=sys.argv[1]; d='/verif/seeded/'+i
m=json.load(open(d+'/meta.json'))
base=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[]) or [])
def sh(c,**k): return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,**k)
assert not sh('git -C /repo status --porcelain').stdout.strip()
def demo():
    tmp='/tmp/demo_'+i; shutil.rmtree(tmp,ignore_errors=True); shutil.copytree(d,tmp); 
    for f in os.listdir(tmp):
        if f.endswith(('.diff','.json')): os.remove(tmp+'/'+f)
    r=sh('timeout 300 bash %s/demo.sh'%tmp,cwd='/repo'); shutil.rmtree(tmp); return r
ok=True
if '--nov' not in sys.argv:
    r=demo(); print('clean demo rc',r.returncode); ok&=r.returncode==0
    if r.returncode: print(r.stdout[-1500:])
    r=sh('git -C /repo apply %s/patch.diff'%d); print('apply',r.returncode,r.stdout); 
    try:
        b=sh('bash /opt/vp/build.sh'); print('build rc',b.returncode)
        t=sh('bash /opt/vp/test.sh /tmp/seed_o.json'); print([l for l in t.stdout.splitlines() if 'passed,' in l])
        r=demo(); print('patched demo rc',r.returncode, r.stdout[-300:]); ok&=r.returncode!=0
    finally:
        sh('git -C /repo checkout -- .'); 
    sh('bash /opt/vp/build.sh')
if '--check' in sys.argv:
    c='/tmp/seedrepo_'+i; shutil.rmtree(c,ignore_errors=True); shutil.copytree('/repo',c,symlinks=True,ignore=shutil.ignore_patterns('_build','.git'))
    sh('patch -p1 < %s/patch.diff'%d,cwd=c)
    e=dict(os.environ,GATLSV_REPO=c); e.pop('GATLSV_CACHE',None)
    for p in [m['property']]+[a for a in sys.argv[2:] if a.startswith('P')]:
        r=sh('time timeout 880 ./check %s quick'%p,cwd='/verif',env=e); print(p,'rc',r.returncode,[l for l in r.stdout.splitlines() if 'VIOL' in l][:2], [l for l in r.stdout.splitlines() if 'quick' in l or 'real' in l])
    shutil.rmtree(c)
