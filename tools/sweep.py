"""sweep.py OUT [ids]: every seeded bug against the check of its property (quick)."""
import sys,os,subprocess,json,shutil,tempfile,time
out=sys.argv[1]; ids=sys.argv[2:] or sorted(os.listdir('/verif/seeded'))
res=json.load(open(out)) if os.path.exists(out) else {}
for i in ids:
    sd='/verif/seeded/'+i
    p=json.load(open(sd+'/meta.json'))['property']
    d=tempfile.mkdtemp(prefix='sweep_')+'/repo'
    try:
        subprocess.run(['cp','-a','/repo',d],check=True)
        r=subprocess.run(['git','apply',sd+'/patch.diff'],cwd=d,capture_output=True,text=True)
        if r.returncode: res[i]=[p,'does not apply',0]; print(i,res[i]); continue
        t=time.time()
        e=dict(os.environ,PYCTBN_REPO=d)
        r=subprocess.run(['/opt/venv/bin/python','/verif/run.py',p,'--tier','quick','--no-evidence','--seed','1'],cwd='/verif',env=e,capture_output=True,text=True)
        v='caught' if r.returncode==1 and 'VIOLATION' in r.stdout else 'missed' if r.returncode==0 else 'rc=%d'%r.returncode
        res[i]=[p,v,round(time.time()-t)]
        print(i,res[i],flush=True)
    finally:
        shutil.rmtree(os.path.dirname(d),ignore_errors=True)
        json.dump(res,open(out,'w'),indent=0)
