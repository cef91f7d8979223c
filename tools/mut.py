#!/usr/bin/env python3
"""mut.py PIDS(comma) file  (stdin: OLD\n====\nNEW) [--tests]"""
import sys,os,subprocess,shutil,tempfile
pids=sys.argv[1].split(','); fn=sys.argv[2]
old,new=sys.stdin.read().rstrip('\n').replace('\n====','\n====\n',1).split('\n====\n',1) if '--' not in sys.argv else (None,None)
d=tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo',d+'/r',ignore=shutil.ignore_patterns('.git','__pycache__'))
p=d+'/r/openid/'+fn
s=open(p).read(); assert s.count(old)>=1,'no match'; s=s.replace(old,new,1); open(p,'w').write(s)
import py_compile; py_compile.compile(p,doraise=True)
env=dict(os.environ,VERIF_REPO=d+'/r')
r=subprocess.run(['/opt/venv/bin/python','-m','unittest','openid.test.test_suite'],cwd=d+'/r',env=env,capture_output=True,text=True) if 0 else None
for pid in pids:
    r=subprocess.run(['python3','/verif/run.py',pid,'--no-evidence'],env=env,capture_output=True,text=True)
    print(pid,'exit',r.returncode,'|',[l for l in r.stdout.split('\n') if l][:1] and r.stdout.split('\n')[0][:300], r.stderr[-300:] if r.returncode not in (0,1) else '')
shutil.rmtree(d)
