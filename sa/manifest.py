"""writes MANIFEST.json from properties.jsonl and the p_*.py modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from technique import TECH, NA
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
    elif os.path.exists(os.path.join(V, 'sa', 'p_%s.py' % i.lower())) and i in TECH:
        t, note = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s quick' % i, 'thorough_cmd': 'python3 sa/check.py %s thorough' % i,
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 sa/prog.py setup', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are static: they analyse rustc MIR of /repo as found, see DESIGN.md. Nothing of the crate under test is executed.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
