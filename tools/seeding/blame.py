#!/usr/bin/env python3
"""Lists the patches in seeded/ that change lines which commits after the pinned one added to /repo."""
import glob,re,subprocess
base='ef5d1dd'
mine=set(subprocess.check_output(['git','-C','/repo','log','--format=%H',base+'..HEAD'],text=True).split())
cache={}
def blame(f):
    if f not in cache:
        cache[f]=[l.split()[0] for l in subprocess.check_output(['git','-C','/repo','blame','-l','-s','--root',f],text=True).splitlines()]
    return cache[f]
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f=None; own=orig=0
    for l in open(p):
        if l.startswith('--- '): f=l[6:].strip()
        elif l.startswith('@@'):
            n=int(re.match(r'@@ -(\d+)',l).group(1))
        elif l.startswith('-') and f:
            h=blame(f)[n-1].lstrip('^')
            if any(m.startswith(h) for m in mine): own+=1
            else: orig+=1
            n+=1
        elif l.startswith(' '): n+=1
    if own or not orig: print(p.split('/')[3],'own',own,'orig',orig)
