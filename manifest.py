#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py (claimed properties) and tools/props.py; the rest becomes not_applicable."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__)); sys.path[:0] = [V, V + '/tools']
from checks import CHECKS
import checks
from props import P
m = dict(version=1, setup_cmd='python3 setup.py', checks=[], not_applicable=[], notes='Checks are run through run.py; see DESIGN.md.')
m['hooks'] = dict(guard='UTYMAP_VERIF', enable='no hooks are needed: the harnesses use public classes and link-time interposition only', source_commits=[])
for p in P:
    c = CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append(dict(property=p['id'], reason=getattr(checks, 'NOT_APPLICABLE', {}).get(p['id'], 'no check registered yet')))
        continue
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 run.py %s --tier quick' % p['id'], thorough_cmd='python3 run.py %s --tier thorough' % p['id'],
        technique=c['technique'], level=c['level'], level_note=c.get('note') or ('Holds on every execution within the stated bounds: ' + c['rule'] + ' Trusts the oracle in the harness and: ' + '; '.join(c.get('assumptions', ['nothing further'])) + '.')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(p) + '\n' for p in P))
