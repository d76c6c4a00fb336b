#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the list of properties and the table below."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
T = {}
def t(ids, technique, note):
    for i in ids.split():
        T[i] = (technique, note)
exec(open(os.path.join(root, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({
            'property': i,
            'quick_cmd': f'./run.sh {i} quick',
            'thorough_cmd': f'./run.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': T[i][0], 'level': 'model_checking', 'level_note': T[i][1]})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': './run.sh setup',
     'hooks': {'guard': 'vsched', 'enable': 'no hooks are committed in /repo: the checks that control goroutine '
               'schedules build it with go build -tags vsched -overlay, the overlay being generated from the working tree at check time',
               'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. KNOWN_FINDINGS.json lists the defects found (fixed and known).'}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
