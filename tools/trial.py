"""python trial.py FILE [names]: trial edits without demos: T(prop, name, [(file, old, new)...])"""
import sys, os, subprocess, shutil, concurrent.futures as cf
L=[]
def T(prop, name, *edits): L.append((prop, name, edits))
exec(open(sys.argv[1]).read())
only=sys.argv[2:]
WV='/tmp/trial-v'; shutil.rmtree(WV, ignore_errors=True); subprocess.run(['cp','-a',os.environ.get('VSRC','/verif'),WV])
R=os.environ.get('RSRC','/repo')
def run(x):
    prop,name,edits=x
    d=f'/tmp/trial-r-{name}'; shutil.rmtree(d, ignore_errors=True); subprocess.run(['cp','-a',R,d])
    for f,o,n in edits:
        p=f'{d}/abstract/{f}'; s=open(p).read()
        if s.count(o)!=1: return name, f'EDIT {f} {s.count(o)} {o[:50]}'
        open(p,'w').write(s.replace(o,n))
    t=subprocess.run(['/opt/venv/bin/python','-m','pytest','-q',f'{d}/abstract/test','-p','no:cacheprovider'],cwd=d,env=dict(os.environ,PYTHONPATH=d),capture_output=True,text=True)
    if t.returncode: shutil.rmtree(d); return name,'tests fail'
    res=[]
    for c in prop.split():
        p=subprocess.run(['/opt/venv/bin/python','harness/run.py',c],cwd=WV,env=dict(os.environ,VERIF_REPO=d,VERIF_SEED='1',VERIF_SHRINK='0',VERIF_EVIDENCE=f'/tmp/trial-ev-{name}'),capture_output=True,text=True)
        res.append(f'{c}:{p.returncode}')
        if p.returncode==1: break
    shutil.rmtree(d); shutil.rmtree(f'/tmp/trial-ev-{name}', ignore_errors=True)
    return name, ('caught ' if ':1' in res[-1] else 'MISSED ')+' '.join(res)
with cf.ThreadPoolExecutor(int(os.environ.get('J','4'))) as ex:
    for n,r in ex.map(run,[x for x in L if not only or x[1] in only]): print(n,'|',r,flush=True)
