#!/usr/bin/env python3
"""mkseed.py ID: verify a seeded bug dir /verif/seeded/ID: patch applies, builds, tests pass, demo fails with and passes without."""
import subprocess,sys,os,shutil,json,tempfile
def sh(c,cwd=None,t=600):
    r=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t)
    return r.returncode,r.stdout
for id in sys.argv[1:]:
    d='/verif/seeded/'+id
    rc,o=sh('git -C /repo status --porcelain')
    assert not o.strip(), 'repo dirty: '+o
    m=json.load(open(d+'/meta.json')); assert {'property','needs','what_it_breaks'}<=set(m)
    rc0,o0=sh('bash %s/demo.sh'%d,cwd='/repo')
    rc,o=sh('git apply %s/patch.diff'%d,cwd='/repo')
    if rc: print(id,'PATCH FAILS',o); continue
    try:
        rb,ob=sh('bash /opt/vp/build.sh')
        rt,ot=sh('bash /opt/vp/test.sh /tmp/w/t.json')
        rd,od=sh('bash %s/demo.sh'%d,cwd='/repo')
        rg,og=sh('git -C /repo diff --stat')
        st,so=sh('git -C /repo status --porcelain')
    finally:
        sh('git -C /repo checkout -- .')
    ok = rc0==0 and rb==0 and rt==0 and '23 passed, 0 failed' in ot and rd!=0
    print(id, 'OK' if ok else 'BAD', 'demo-clean=%d build=%d tests=%d demo-bug=%d'%(rc0,rb,rt,rd), ot.strip().split('\n')[-1], '|', od.strip()[-300:])
    if not ok: print(o0[-800:], ob[-500:] if rb else '', ot[-800:] if rt else '')
