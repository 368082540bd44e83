#!/usr/bin/env python3
"""mutate.py [-j name-regex]: applies each mutant of mutants.py to a copy of /repo, bind-mounted over /repo in a
private mount namespace (so /repo itself is not touched), and runs the quick checks of its properties. Development only."""
import os,re,subprocess,sys,time,json,shutil
W='/tmp/mw'
if os.environ.get('IN_NS')!='1':
    os.makedirs(W,exist_ok=True)
    subprocess.check_call(['rsync','-a','--delete','/repo/',W+'/repo/']) if shutil.which('rsync') else subprocess.check_call(['cp','-a','/repo',W+'/'])
    subprocess.check_call('rm -rf %s/verif && mkdir %s/verif && cp -a /verif/. %s/verif/'%(W,W,W),shell=True)
    cmd='mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 /verif/tools/mutate.py "$@"'%(W,W)
    os.environ['IN_NS']='1'
    os.execvp('unshare',['unshare','-Urm','bash','-c',cmd,'mutate']+sys.argv[1:])
sys.path.insert(0,'/verif/tools')
import importlib; M_=[x for x in importlib.import_module(os.environ.get("MUT","mutants")).M_]
pat=re.compile(sys.argv[1] if len(sys.argv)>1 else '.')
done={json.loads(l)['name'] for l in open(W+'/results.jsonl')} if os.path.exists(W+'/results.jsonl') and not os.environ.get('REDO') else set()
out=open(W+'/results.jsonl','a')
subprocess.run('git -C /repo checkout -q -- .',shell=True)
for name,props,edits in M_:
    if not pat.search(name) or name in done: continue
    orig={}; bad=None
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read(); orig.setdefault(p,s)
        if o not in s: bad='no match in '+f; break
        open(p,'w').write(s.replace(o,n,1))
    res={}
    if not bad:
        for q in props:
            t=time.time()
            try:
                r=subprocess.run(['/verif/check.sh',q,'quick'],capture_output=True,text=True,timeout=900,env=dict(os.environ,VERIF_SEED='1',VERIF_TIER='quick'))
                rc,txt=r.returncode,r.stdout+r.stderr
            except subprocess.TimeoutExpired: rc,txt=124,''
            if rc==2 and 'does not build' in txt: bad=[l for l in txt.splitlines() if l.startswith('error')][:3]; break
            m=[l for l in txt.splitlines() if 'VIOLATION' in l]
            why=[l for l in txt.splitlines() if l.strip()][-3:]
            res[q]=(rc,round(time.time()-t),(m or why)[:1])
            if rc==1: break
    for p,s in orig.items(): open(p,'w').write(s)
    verdict='NOBUILD' if bad else 'caught' if any(v[0]==1 for v in res.values()) else 'MISSED'
    line=json.dumps(dict(name=name,verdict=verdict,bad=bad,res=res)); out.write(line+'\n'); out.flush(); print(verdict,name,bad or {q:v[:2] for q,v in res.items()},flush=True)
