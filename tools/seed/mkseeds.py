import sys,os,shutil,subprocess,tempfile,json,re
sys.path.insert(0,'/tmp/e')
from concurrent.futures import ThreadPoolExecutor
import importlib
S=importlib.import_module(sys.argv[1]).S
only=sys.argv[2:]
V='/verif/seeded'
DEMO='#!/bin/bash\n# exit 0 when the property holds in what this demonstration does\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\nexec /opt/venv/bin/python "$here/demo.py"\n'
def go(s):
    id,prop,file,old,new,needs,breaks,demo=s
    p='/repo/pdfme/'+file; src=open(p).read()
    if src.count(old)!=1: return id+': NOTFOUND %d'%src.count(old)
    a=src[:src.index(old)].count('\n')+1; b=a+old.count('\n')-(old.endswith('\n'))
    # changed lines must be original
    d=tempfile.mkdtemp(prefix='sd-',dir='/tmp/e')
    try:
        subprocess.run('cp -a /repo %s/r'%d,shell=True,check=True)
        w=d+'/r'
        open(w+'/pdfme/'+file,'w').write(src.replace(old,new))
        diff=subprocess.run(['git','diff'],cwd=w,capture_output=True,text=True).stdout
        bl=subprocess.run(['git','blame','-s','-L%d,%d'%(a,b),'pdfme/'+file],cwd=w,capture_output=True,text=True).stdout
        bl=subprocess.run(['git','blame','-s','-L%d,%d'%(a,b),'HEAD','--','pdfme/'+file],cwd='/repo',capture_output=True,text=True).stdout
        removed=[l[1:].strip() for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        for l in bl.splitlines():
            code=l.split(')',1)[1].strip()
            if code in removed and not l.startswith('^d41a999'): return id+': NOT ORIGINAL '+l[:90]
        f=V+'/'+id; os.makedirs(f,exist_ok=True)
        open(f+'/patch.diff','w').write(diff)
        open(f+'/demo.sh','w').write(DEMO); os.chmod(f+'/demo.sh',0o755)
        shutil.copy('/verif/tools/seed/h.py',f+'/h.py')
        open(f+'/demo.py','w').write('from h import *\n'+demo.lstrip('\n'))
        json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks or needs},open(f+'/meta.json','w'),indent=1)
        r=[]
        e=dict(os.environ,PYTHONHASHSEED='0')
        x=subprocess.run(['bash',f+'/demo.sh'],cwd='/repo',capture_output=True,text=True,timeout=300,env=e)
        r.append('clean=%d'%x.returncode)
        if x.returncode: r.append((x.stderr+x.stdout)[-300:])
        x=subprocess.run(['bash',f+'/demo.sh'],cwd=w,capture_output=True,text=True,timeout=300,env=e)
        r.append('patched=%d'%x.returncode)
        r.append((x.stderr+x.stdout).strip().splitlines()[-1][-120:] if x.returncode else '')
        x=subprocess.run("timeout 600 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=180 --randomly-seed=20 --randomly-dont-reorganize -o python_files='test_*.py running_section_per_page.py group_element.py' --continue-on-collection-errors tests 2>&1 | tail -8",shell=True,cwd=w,capture_output=True,text=True,env=e)
        r.append('TESTS '+x.stdout.strip().splitlines()[-1] if x.stdout.strip() else 'TESTS ?')
        e['VERIF_REPO']=w
        x=subprocess.run(['/usr/bin/python3','/verif/check.py',prop],cwd='/verif',capture_output=True,text=True,timeout=1500,env=e) if '--nocheck' not in sys.argv else None
        if x: r.append('CHECK rc=%d %s'%(x.returncode,' '.join(l for l in x.stdout.splitlines() if 'VIOLATION' in l)[:160]))
        return id+': '+' | '.join(r)
    finally: shutil.rmtree(d)
S=[s for s in S if not [o for o in only if o[0]!='-'] or s[0] in only]
with ThreadPoolExecutor(5) as ex:
    for r in ex.map(go,S): print(r,flush=True)
