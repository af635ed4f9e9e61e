#!/usr/bin/env python3
"""Writes MANIFEST.json from the rules that exist and the table of reasons for the properties that are not claimed."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
meta = json.load(open(f'{H}/tools/claims.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/rules/{i.lower()}.py') and i in meta['claimed']:
        t, note = meta['claimed'][i]
        checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                       'technique': t, 'level': 'other', 'level_note': note})
    else:
        na.append({'property': i, 'reason': meta['na'].get(i, 'no check has been built for it (yet)')})
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'All checks are static: they type-check /repo with a rustc driver, dump its MIR and evaluate rules on it; nothing of /repo is executed. No hooks in /repo.'},
          open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
