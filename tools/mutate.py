"""mm.py props domain file <<< python list of (old,new)"""
import sys,subprocess,tempfile,shutil,os
props,dom,f=sys.argv[1:4]
muts=eval(sys.stdin.read())
from concurrent.futures import ThreadPoolExecutor
def run(m):
    old,new=m
    w=tempfile.mkdtemp(prefix='/tmp/mut')
    try:
        subprocess.run(['git','clone','-q','/repo',w+'/r'],check=True)
        p=w+'/r/'+f; s=open(p).read()
        if s.count(old)!=1: return 'BAD count %d %r'%(s.count(old),old[:50])
        open(p,'w').write(s.replace(old,new))
        plug=open("/opt/vp/plugins/vp_async_name.py").read()
        open(w+"/vp_async_name.py","w").write(plug.replace('"/repo/tests/"',repr(w+"/r/tests/")))
        t=subprocess.run("cd %s/r && PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s:%s/r timeout 200 /opt/venv/bin/python -m pytest -q -p vp_async_name -p no:cacheprovider --timeout=120 --continue-on-collection-errors --disable-pytest-warnings tests 2>&1 | tail -1"%(w,w,w),shell=True,capture_output=True,text=True).stdout.strip()
        out=[]
        for q in props.split():
            r=subprocess.run(['python3','-m','harness.check',q]+(['--domain',dom] if dom!='-' else []),cwd='/verif',env=dict(os.environ,KIEL_REPO=w+'/r'),capture_output=True,text=True)
            cl=[l for l in r.stdout.splitlines() if 'clause' in l]
            out.append('%s rc=%d %s'%(q,r.returncode,'; '.join(c.split('clause ')[1] for c in cl[:4])))
        return '%r -> tests %s\n    %s'%(new[:70],t[:60],'\n    '.join(out))
    finally: shutil.rmtree(w)
with ThreadPoolExecutor(3) as ex:
    for r in ex.map(run,muts): print(r,flush=True)
