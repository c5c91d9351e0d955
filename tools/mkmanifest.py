#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist (rules/pNN.py: TECHNIQUE, NOTE)"""
import json, os, sys, ast
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    f = V + '/rules/%s.py' % p.lower()
    if os.path.exists(f):
        g = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", None) in ('TECHNIQUE', 'NOTE'):
                g[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append({'property': p, 'quick_cmd': './check.py ' + p, 'technique': g['TECHNIQUE'], 'level': 'other',
                       'level_note': g['NOTE'], 'evidence_file': 'evidence/%s.json' % p})
    else:
        na.append({'property': p, 'reason': 'no rule deciding it statically has been built yet'})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
     'notes': 'Each check rebuilds the intermediate representation (or syntax trees) from the current working tree of /repo in a temporary directory; nothing of the repository is executed.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
