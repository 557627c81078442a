#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS, NOTES
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
checks, na = [], []
for p in ids:
    if p in CHECKS:
        mods = sorted({j['module'] for j in CHECKS[p]['jobs']})
        models = sorted({m['module'] for m in CHECKS[p].get('models', [])})
        t = 'TLA+ model-based: traces of the real code checked by TLC against ' + ', '.join('spec/%s.tla' % m for m in mods)
        if models:
            t += '; TLC model checking / behaviour generation: ' + ', '.join(models)
        checks.append(dict(property=p, quick_cmd='python3 run.py check ' + p, thorough_cmd='VERIF_TIER=thorough python3 run.py check ' + p,
                           evidence_file='evidence/%s.json' % p, technique=t, level=CHECKS[p].get('level', 'model_checking'),
                           level_note=NOTES.get(p, NOTES['*'])))
    else:
        na.append(dict(property=p, reason=NOTES.get(p, 'no check built yet')))
json.dump(dict(version=1, setup_cmd='python3 run.py setup', checks=checks, not_applicable=na,
               hooks=dict(guard='none', enable='the machinery uses the public API and, through go build -overlay, accessor files kept in /verif; nothing is added to /repo', source_commits=[])),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
