#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, checks/ and tools/notes.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
notes = json.load(open(root + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.isdir(f'{root}/checks/{i}') and i not in notes.get('not_applicable', {}):
        checks.append({
            'property': i,
            'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'technique': notes['technique'].get(i, notes['technique']['default']),
            'level': 'model_checking',
            'level_note': notes['level_note'].get(i, notes['level_note']['default']),
        })
    else:
        na.append({'property': i, 'reason': notes.get('not_applicable', {}).get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'notes': notes['notes']}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks', len(na), 'not applicable')
