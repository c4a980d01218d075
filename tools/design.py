#!/usr/bin/env python3
"""Writes DESIGN.md from checks.py, properties.jsonl, known_findings.json, seeded/ and the notes below."""
import json,os,sys
R=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,R); sys.path.insert(0,os.path.join(R,'tools'))
import checks, notes
props=[json.loads(l) for l in open(R+'/properties.jsonl')]
kf=json.load(open(R+'/known_findings.json'))['findings']
o=[notes.HEAD.strip(),'']
o+=['## Properties','']
for p in props:
    i=p['id']; n=notes.N[i]
    o+=['### %s %s'%(i,p['title']),'']
    if i not in checks.CHECKS:
        o+=[checks.NOT_APPLICABLE[i],'']; continue
    c=checks.CHECKS[i]
    o+=['*Method* (%s): %s.'%(c['level'],c['technique']),'']
    o+=['*Space:* '+c['rule'],'']
    o+=['*Oracle and binding:* '+n['oracle'],'']
    o+=['*What the tests cannot reach:* '+p['why_tests_cant'],'']
    a=c.get('assumptions',[])
    if a: o+=['*Assumptions:* '+'; '.join(a)+'.','']
    if n.get('notes'): o+=['*Notes:* '+n['notes'],'']
    o+=['*Cost:* '+n['cost'],'']
    f=[e for e in kf if e['property']==i]
    if f:
        o+=['*Defects found:*','']
        for e in f:
            if e['status']=='fixed': o.append('- '+e['text'])
            else: o.append('- known finding (not repaired): %s: %s'%(e['case'],e['what']))
        o.append('')
o+=['## Planted bugs','',notes.SEEDED.strip(),'','| bug | property | what it breaks | needs | caught by |','|---|---|---|---|---|']
for s in sorted(os.listdir(R+'/seeded')):
    m=json.load(open('%s/seeded/%s/meta.json'%(R,s)))
    e=lambda t:str(t).replace('|','\\|').replace('\n',' ')
    o.append('| %s | %s | %s | %s | %s |'%(s,m['property'],e(m['what_it_breaks']),e(m['needs']),notes.CAUGHT.get(s,m['property'])))
o+=['',notes.TAIL.strip(),'']
open(R+'/DESIGN.md','w').write('\n'.join(o))
