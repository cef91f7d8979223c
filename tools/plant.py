import os,sys,subprocess,shutil,tempfile,json,textwrap
BASE=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def plant(pid_seed, prop, edits, demo, needs, breaks, checks=None, keep=True):
    d=tempfile.mkdtemp(prefix='plant',dir='/tmp'); r=d+'/r'
    try:
        shutil.copytree('/repo',r,ignore=shutil.ignore_patterns('__pycache__'))
        for f,old,new in edits:
            p=r+'/openid/'+f; s=open(p).read()
            assert s.count(old)==1,(f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        diff=subprocess.run(['git','-C',r,'diff'],capture_output=True,text=True).stdout
        env=dict(os.environ,PYTHONDONTWRITEBYTECODE='1',PYTHONHASHSEED='0',PYTHONPATH=r)
        subprocess.run(['/opt/venv/bin/python','-m','pytest','-q','-p','no:cacheprovider','--timeout=300','--continue-on-collection-errors','-o','python_functions=NO_TEST_FUNCTIONS','-o','junit_family=xunit2','--junitxml='+d+'/j.xml','openid'],cwd=r,env=env,capture_output=True)
        subprocess.run(['python3','/opt/vp/results.py',d+'/o.json','junit:'+d+'/j.xml'],capture_output=True)
        passed=set(json.load(open(d+'/o.json'))['passed'])
        miss=BASE-passed
        if miss: print(pid_seed,'TESTS FAIL',sorted(miss)[:5]); return
        out='/verif/seeded/'+pid_seed
        s=d+'/s'; os.mkdir(s)
        open(s+'/demo.py','w').write(textwrap.dedent(demo).lstrip())
        open(s+'/demo.sh','w').write('#!/bin/bash\n# run with cwd /repo\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(s+'/demo.sh',0o755)
        a=subprocess.run(['bash',s+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
        b=subprocess.run(['bash',s+'/demo.sh'],cwd=r,capture_output=True,text=True)
        if a.returncode!=0 or b.returncode==0:
            print(pid_seed,'DEMO BAD clean',a.returncode,a.stderr[-300:],'patched',b.returncode,b.stderr[-300:]); return
        open(s+'/patch.diff','w').write(diff)
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(s+'/meta.json','w'),indent=1)
        if keep:
            if os.path.exists(out): shutil.rmtree(out)
            shutil.copytree(s,out)
        res=[]
        for c in checks or [prop]:
            q=subprocess.run(['python3','/verif/run.py',c,'--no-evidence'],env=dict(os.environ,VERIF_REPO=r),capture_output=True,text=True)
            res.append((c,q.returncode,q.stdout[:200] if q.returncode==1 else q.stderr[-200:]))
        print(pid_seed,res)
    finally:
        shutil.rmtree(d)
