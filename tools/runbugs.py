"""J=4 python runbugs.py [--all] [ids]: apply each seeded bug in a copy and run its property's check (or all)"""
import sys, os, subprocess, json, shutil, concurrent.futures as cf
args=sys.argv[1:]; ALL='--all' in args; args=[a for a in args if a!='--all']
BUGDIR=os.environ.get('BUGDIR','/verif/seeded')
seed=os.environ.get('VERIF_SEED','1')
ids=args or sorted(os.listdir(BUGDIR))
checks=[f'C{i:02d}' for i in range(1,60) if os.path.exists(f'/verif/harness/checks/C{i:02d}.py')]
def run(id):
    wt=f'/tmp/bug/{id}'; shutil.rmtree(wt, ignore_errors=True); os.makedirs('/tmp/bug',exist_ok=True)
    subprocess.run(['cp','-a',os.environ.get('RSRC','/repo'),wt],check=True)
    a=subprocess.run(['git','-C',wt,'apply',f'{BUGDIR}/{id}/patch.diff'],capture_output=True,text=True)
    if a.returncode: return id,'APPLY FAILED '+a.stderr,[]
    prop=json.load(open(f'{BUGDIR}/{id}/meta.json'))['property']
    caught=[]; own='?'
    for c in ([prop]+[c for c in checks if c!=prop] if ALL else [prop]):
        p=subprocess.run(['/opt/venv/bin/python','harness/run.py',c],cwd=WV,env=dict(os.environ,VERIF_REPO=wt,VERIF_SEED=seed,VERIF_TIER='quick'),capture_output=True,text=True)
        v=[l for l in p.stdout.splitlines() if l.startswith('VIOLATION')]
        if c==prop: own=f'rc={p.returncode} '+(v[0] if v else p.stdout[-200:]+p.stderr[-200:])
        if p.returncode==1 and v: caught.append(c)
    shutil.rmtree(wt)
    return id,own,caught
WV='/tmp/vcopy'
shutil.rmtree(WV,ignore_errors=True); subprocess.run(['cp','-a',os.environ.get('VSRC','/verif'),WV])
with cf.ThreadPoolExecutor(int(os.environ.get('J','3'))) as ex:
    for id,own,caught in ex.map(run,ids):
        print(id,'|',own[:150],'|',' '.join(caught),flush=True)
