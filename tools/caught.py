"""run the property's check for each seeded bug (args: ids or all) and record in /verif/tools/caught.json"""
import os,sys,json,subprocess,shutil,tempfile
from concurrent.futures import ThreadPoolExecutor
S='/verif/seeded'; J='/verif/tools/caught.json'
ids=sys.argv[1:] or sorted(os.listdir(S))
C=json.load(open(J)) if os.path.exists(J) else {}
def go(b):
    m=json.load(open(S+'/'+b+'/meta.json'))
    d=tempfile.mkdtemp(prefix='ct')
    try:
        shutil.copytree('/repo',d+'/r',ignore=shutil.ignore_patterns('__pycache__'))
        a=subprocess.run(['git','-C',d+'/r','apply',S+'/'+b+'/patch.diff'],capture_output=True,text=True)
        if a.returncode: return b,'NOAPPLY '+a.stderr
        r=subprocess.run(['python3','/verif/run.py',m['property'],'--no-evidence'],env=dict(os.environ,VERIF_REPO=d+'/r'),capture_output=True,text=True)
        return b,[m['property']] if r.returncode==1 else [] if r.returncode==0 else 'ERR %s %s'%(r.returncode,r.stderr[-300:])
    finally: shutil.rmtree(d)
with ThreadPoolExecutor(2) as ex:
    for b,r in ex.map(go,ids):
        print(b,r)
        if isinstance(r,list): C[b]=r
C={k:v for k,v in C.items() if os.path.exists(S+'/'+k)}
json.dump(C,open(J,'w'),indent=1,sort_keys=True)
