#!/usr/bin/env python3
"""caught.py ids… : run the property's check on a scratch tree with the bug, update /verif/tools/caught.json"""
import sys,os,json,subprocess,glob,shutil
from concurrent.futures import ThreadPoolExecutor
V='/verif'; ids=sys.argv[1:] or [os.path.basename(d) for d in sorted(glob.glob(V+'/seeded/*'))]
p=V+'/tools/caught.json'
C=json.load(open(p)) if os.path.exists(p) else {}
man={c['property'] for c in json.load(open(V+'/MANIFEST.json'))['checks']}
for i in ids:
    m=json.load(open(f'{V}/seeded/{i}/meta.json'))
    if m['property'] not in man: C[i]='not claimed'; print(i,C[i]); continue
    S='/tmp/work/caught'; shutil.rmtree(S,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',S],check=True)
    r=subprocess.run(['git','-C',S,'apply',f'{V}/seeded/{i}/patch.diff'])
    assert r.returncode==0,i
    e=dict(os.environ,VERIF_REPO=S,VERIF_SEED='1',VERIF_TIER='quick')
    r=subprocess.run(['./check.sh',m['property'],'quick'],cwd=V,env=e,capture_output=True,text=True)
    v=[l for l in r.stdout.split('\n') if l.startswith('VIOLATION property='+m['property'])]
    C[i]='yes' if r.returncode==1 and v else 'NO (rc %d)'%r.returncode
    print(i,C[i],'|',r.stdout[-700:].replace('\n',' ~ ')[:500])
json.dump(C,open(p,'w'),indent=1,sort_keys=True)
