#!/usr/bin/env python3
# fixed.py PROP HASH TEXT: records a repaired defect in known_findings.json
import json,sys
k=json.load(open('/verif/known_findings.json')); p,h,t=sys.argv[1:]
k['findings'].append(dict(property=p,status='fixed',text='fixed: property=%s %s %s'%(p,h,t))); json.dump(k,open('/verif/known_findings.json','w'),indent=1)
