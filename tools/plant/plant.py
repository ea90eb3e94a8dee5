#!/usr/bin/env python3
import subprocess,os,json,sys,stat,textwrap,shutil
WT='/tmp/plant/wt'
if not os.path.exists(WT):
    subprocess.check_call(['git','-C','/repo','worktree','add','--detach','-f',WT,'HEAD'],stdout=subprocess.DEVNULL)
B=[]
def bug(id,prop,file,old,new,needs,breaks,demo,extra={}): B.append((id,prop,file,old,new,needs,breaks,demo,extra))
PRE='''#!/bin/bash
# run in /repo after the build: exit 0 if the behaviour is right
set -u
BIN="$PWD/target/debug"
D=$(mktemp -d) || exit 99
trap 'rm -rf "$D"' EXIT
cd "$D"
'''
exec(open('/tmp/plant/bugs.py').read())
only=sys.argv[1:]
for id,prop,file,old,new,needs,breaks,demo,extra in B:
    if only and id not in only: continue
    subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
    edits=[(file,old,new)] if isinstance(file,str) else file
    for f,o,n in edits:
        p=f'{WT}/{f}'; s=open(p).read()
        assert s.count(o)==1,(id,f,s.count(o))
        open(p,'w').write(s.replace(o,n))
    d=f'/verif/seeded/{id}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(subprocess.check_output(['git','-C',WT,'diff'],text=True))
    open(f'{d}/demo.sh','w').write(PRE+textwrap.dedent(demo).lstrip('\n'))
    os.chmod(f'{d}/demo.sh',0o755)
    for k,v in extra.items(): open(f'{d}/{k}','w').write(v)
    json.dump({"property":prop,"needs":needs,"what_it_breaks":breaks},open(f'{d}/meta.json','w'),indent=1)
    print('wrote',id)
subprocess.check_call(['git','-C',WT,'checkout','-q','--','.'])
