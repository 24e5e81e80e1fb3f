#!/usr/bin/env python3
# mk1.py: helper to make a seed: spec via python call
import subprocess,sys,os,json
def seed(id,prop,file,old,new,needs,breaks,bnf,main,flags=None,count=1,extra=None):
    assert not subprocess.check_output('git -C /repo status --porcelain',shell=True,text=True).strip()
    edits=[(file,old,new)]+(extra or [])
    for f,o,n in edits:
        p='/repo/'+f; s=open(p).read()
        assert s.count(o)>=1,(id,f,'missing',o)
        if count==1: assert s.count(o)==1,(id,f,s.count(o))
        open(p,'w').write(s.replace(o,n,1))
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    open(d+'/patch.diff','w').write(subprocess.check_output('git -C /repo diff',shell=True,text=True))
    subprocess.check_call('git -C /repo checkout -q -- .',shell=True)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    if bnf is not None:
        open(d+'/g.bnf','w').write('package "demo"\n\n'+bnf+'\n')
        open(d+'/main.go.txt','w').write(main)
        if flags: open(d+'/flags','w').write(flags)
        subprocess.check_call(['cp','/tmp/w/demo_gll.sh',d+'/demo.sh'])
