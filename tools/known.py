#!/usr/bin/env python3
"""known.py PROP COMMIT WHAT: append a fixed entry to known_findings.json"""
import json,sys,os
f=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'known_findings.json')
k=json.load(open(f)); p,c,w=sys.argv[1:4]
k.append(dict(property=p,status='fixed',commit=c,what=w,text='fixed: property=%s %s %s'%(p,c,w)))
open(f,'w').write(json.dumps(k,indent=1,ensure_ascii=False)+'\n')
