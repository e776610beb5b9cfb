#!/usr/bin/env python3
"""mk.py defs.py [ids…]: build /verif/seeded/<id> from definitions, run the demo on the clean and the patched tree."""
import sys, os, subprocess, json, shutil
R='/tmp/seedrepo'; OUT='/verif/seeded'
B=[]
RUN='''#!/bin/bash
# cwd: the repository. 0 when the behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -DNDEBUG %(flags)s -DRICHDEM_NO_PROGRESS -Iinclude "$here/demo.cpp" -o "$T/demo" -L_build -lrichdem %(libs)s || exit 3
cd "$T" && LD_LIBRARY_PATH="$OLDPWD/_build" %(env)s timeout 200 ./demo >"$T/out" 2>"$T/err"
rc=$?
tail -5 "$T/out"; tail -3 "$T/err" | cut -c1-300
exit $rc
'''
def bug(id, prop, edits, needs, breaks, demo=None, flags='-fopenmp', libs='', env='', sh=None, extra={}):
    B.append((id,prop,edits,needs,breaks,demo,flags,libs,env,sh,extra))
exec(open(sys.argv[1]).read())
sel=sys.argv[2:]
def git(*a): return subprocess.run(['git','-C',R]+list(a),capture_output=True,text=True)
for (id,prop,edits,needs,breaks,demo,flags,libs,env,sh,extra) in B:
    if sel and id not in sel: continue
    git('checkout','-q','--','.')
    for f,o,n in edits:
        p=os.path.join(R,f); s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o),o)
        open(p,'w').write(s.replace(o,n))
    d=os.path.join(OUT,id); os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(git('diff').stdout)
    if demo: open(d+'/demo.cpp','w').write(demo)
    for k,v in extra.items(): open(os.path.join(d,k),'w').write(v)
    open(d+'/demo.sh','w').write(sh or RUN%dict(flags=flags,libs=libs,env=env)); os.chmod(d+'/demo.sh',0o755)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
    if 'CLEANONLY' in os.environ: continue
    r1=subprocess.run(['bash',d+'/demo.sh'],cwd=R,capture_output=True,text=True)
    git('checkout','-q','--','.')
    r0=subprocess.run(['bash',d+'/demo.sh'],cwd=R,capture_output=True,text=True)
    print(id,'clean',r0.returncode,'patched',r1.returncode,'OK' if r0.returncode==0 and r1.returncode!=0 else 'BAD')
    print('   clean:',(r0.stdout+r0.stderr)[-300:].strip().replace('\n',' | '))
    print('   patched:',(r1.stdout+r1.stderr)[-300:].strip().replace('\n',' | '))
