"""plant.py FILE [ids…]: validate bugs, write /verif/seeded/<id>, run the check of the property."""
import sys, os, subprocess, shutil, json, importlib.util, xml.etree.ElementTree as ET, concurrent.futures as cf, tempfile, time, random
SRC='/repo'; ROOT='PyCTBN/PyCTBN/'
STABLE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
PY='/opt/venv/bin/python'
def sh(cmd,cwd,env=None,t=900):
    e=dict(os.environ); e.pop('PYTHONPATH',None); e.update(env or {})
    return subprocess.run(cmd,cwd=cwd,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
def tests(d):
    w=tempfile.mkdtemp(prefix='plt')
    env=dict(HOME='/root',MPLBACKEND='Agg',PYTHONHASHSEED='0',PYTHONDONTWRITEBYTECODE='1',OMP_NUM_THREADS='1',OPENBLAS_NUM_THREADS='1',MPLCONFIGDIR=w+'/mpl',PYTHONPYCACHEPREFIX=w+'/pyc')
    os.makedirs(w+'/mpl')
    ids=[]
    r=sh([PY,'-m','pytest','-q','-p','no:cacheprovider','--timeout=300','--continue-on-collection-errors','--tb=short','-o','junit_family=xunit2','--junitxml='+w+'/j.xml','PyCTBN/tests/structure_graph','PyCTBN/tests/utility'],d,env)
    ok=set()
    for tc in ET.parse(w+'/j.xml').getroot().iter('testcase'):
        if not list(tc): ok.add(tc.get('classname')+'::'+tc.get('name'))
    shutil.rmtree(w)
    for f in ('test.json','data.json'):
        if os.path.exists(d+'/'+f): os.remove(d+'/'+f)
    return STABLE-ok
def demo(sd,d):
    t=tempfile.mkdtemp(prefix='pltd')
    shutil.copytree(sd,t+'/x')
    for f in os.listdir(t+'/x'):
        if f.endswith(('.diff','.patch')) or f=='meta.json': os.remove(t+'/x/'+f)
    try: r=sh(['bash',t+'/x/demo.sh'],d,t=300)
    except subprocess.TimeoutExpired: shutil.rmtree(t); return 99,'TIMEOUT'
    shutil.rmtree(t); return r.returncode,r.stdout
def one(b):
    bid=b['id']; d=tempfile.mkdtemp(prefix='plant_')+'/repo'
    out={'id':bid,'property':b['property']}
    try:
        sh(['cp','-a',SRC,d],'/')
        sd='/verif/seeded/'+bid
        if b.get('skip'): return out
        for f,old,new in b['edits']:
            p=d+'/'+ROOT+f; s=open(p).read()
            if s.count(old)!=1: out['err']=f'{f}: {s.count(old)} matches of {old!r}'; return out
            open(p,'w').write(s.replace(old,new))
        diff=sh(['git','diff'],d).stdout
        # removed lines from base?
        rem=0; base=0
        for f in {e[0] for e in b['edits']}:
            bl=sh(['git','blame','-s','-l','HEAD','--',ROOT+f],d).stdout.splitlines()
            dd=sh(['git','diff','-U0','--',ROOT+f],d).stdout
            import re
            for m in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ',dd,re.M):
                a=int(m[1]); n=int(m[2]) if m[2] is not None else 1
                for i in range(a,a+n):
                    rem+=1
                    if bl[i-1].lstrip('^').startswith(BASE[:39]): base+=1
        out['lines']=f'{base}/{rem}'
        if base==0: out['err']='no original line changed'
        os.makedirs(sd,exist_ok=True)
        open(sd+'/patch.diff','w').write(diff)
        open(sd+'/demo.sh','w').write('#!/bin/bash\n# cwd: the repository; exit 0 when the property holds in this example, 1 when it is broken\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1\nunset PYTHONPATH PYTHONHOME\nexec /opt/venv/bin/python -W ignore "$(dirname "$(readlink -f "$0")")/demo.py"\n')
        os.chmod(sd+'/demo.sh',0o755)
        open(sd+'/demo.py','w').write(PRELUDE+'\n\n'+b['demo'].strip()+'\n')
        json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(sd+'/meta.json','w'),indent=1)
        r=sh([PY,'-m','compileall','-q','PyCTBN'],d,{'PYTHONPYCACHEPREFIX':d+'/../pyc'})
        if r.returncode: out['err']='compile '+r.stdout; return out
        bad=tests(d)
        if bad: out['err']='tests fail: '+', '.join(bad); 
        rc0,o0=demo(sd,SRC)
        rc1,o1=demo(sd,d)
        out['demo']=(rc0,rc1)
        if rc0!=0 or rc1==0: out['err']=out.get('err','')+f' demo clean={rc0} {o0[-600:]} patched={rc1} {o1[-300:]}'
        out['demo_out']=o1[-200:]
        if 'nocheck' in b: return out
        t=time.time()
        res={}
        for p in [b['property']]+b.get('also',[]):
            try: r=sh(['/opt/venv/bin/python','/verif/run.py',p,'--tier','quick','--no-evidence','--seed','1'],'/verif',{'PYCTBN_REPO':d,'VERIF_SEED':'1','VERIF_TIER':'quick'})
            except subprocess.TimeoutExpired: res[p]='TIMEOUT'; continue
            v=[l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            res[p]='CAUGHT' if r.returncode==1 and v else f'missed rc={r.returncode} {r.stdout[-200:]}' if r.returncode else 'MISSED'
            out['sec']=round(time.time()-t)
        out['res']=res
    except Exception as e:
        import traceback; out['err']=traceback.format_exc()
    finally:
        shutil.rmtree(os.path.dirname(d),ignore_errors=True)
        if out.get('err') and not b.get('keep'): shutil.rmtree('/verif/seeded/'+bid,ignore_errors=True)
    return out
BASE=subprocess.run(['git','rev-parse','7c8b28e'],cwd=SRC,stdout=subprocess.PIPE,text=True).stdout.strip()
if __name__=='__main__':
    spec=importlib.util.spec_from_file_location('bugs',sys.argv[1]); m=importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    PRELUDE=m.PRELUDE
    ids=sys.argv[2:]
    bugs=[b for b in m.BUGS if not ids or b['id'] in ids or b['property'] in ids]
    with cf.ThreadPoolExecutor(2) as ex:
        for o in ex.map(one,bugs):
            print(json.dumps({k:v for k,v in o.items() if k!='demo_out'}),flush=True)
            open('/tmp/plant/results.jsonl','a').write(json.dumps(o)+'\n')
