#!/usr/bin/env python3
# design.py: writes DESIGN.md from tools/design/*.md, known_findings.json, seeded/ and catches.json.
import json,os,glob
V='/verif/'
o=open(V+'tools/design/1_head.md').read()+open(V+'tools/design/2_sections.md').read()
o+='\n## Defects found and repaired\n\nEach was shown on the real code by the check named, repaired by a `fix:` commit in /repo, and\nis kept in known_findings.json as fixed (which suppresses nothing). There are no open findings.\n\n| property | commit | what failed |\n|---|---|---|\n'
for e in json.load(open(V+'known_findings.json')):
    o+='| %s | %s | %s |\n'%(e['property'],e.get('commit',''),e['what'].replace('|','\\|'))
c=json.load(open(V+'tools/design/catches.json')) if os.path.exists(V+'tools/design/catches.json') else {}
o+='\n## Planted bugs\n\nEach in seeded/ID, verified (builds, passes the tests, the demonstration tells it apart).\n"Found as" is the kind of the first violation the check of the property reports (quick tier).\n\n| id | needs | breaks | found as |\n|---|---|---|---|\n'
for d in sorted(glob.glob(V+'seeded/*/')):
    i=d.split('/')[-2]; m=json.load(open(d+'meta.json'))
    o+='| %s | %s | %s | %s |\n'%(i,m['needs'].replace('|','\\|'),m['what_it_breaks'].replace('|','\\|'),c.get(i,''))
o+='\n'+open(V+'tools/design/4_rest.md').read()
open(V+'DESIGN.md','w').write(o)
