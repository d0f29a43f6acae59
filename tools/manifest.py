#!/opt/venv/bin/python
"""Regenerate MANIFEST.json from properties.jsonl and sim/props."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
with open(os.path.join(HERE, 'tools', 'notes.json')) as f:
    NOTE = json.load(f)
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    d = json.loads(line)
    pid = d['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'props', pid.lower() + '.py')):
        checks.append({
            'property': pid,
            'quick_cmd': f'./check.py {pid} quick',
            'thorough_cmd': f'./check.py {pid} thorough',
            'evidence_file': f'evidence/{pid}.json',
            'technique': 'deterministic simulation with fault injection: '
                         + NOTE[pid][0],
            'level': 'exploration',
            'level_note': NOTE[pid][1]})
    else:
        na.append({'property': pid, 'reason': 'check not built yet'})
out = {'version': 1, 'setup_cmd': './check.py selftest --smoke',
       'hooks': {'guard': 'none', 'enable': 'no hook was needed: every seam is '
                 'outside /repo (see DESIGN.md)', 'source_commits': []},
       'checks': checks, 'not_applicable': na,
       'notes': 'Exit 2 of a check means that the harness itself failed. '
                'BEERSIM_SCALE multiplies the number of runs, BEERSIM_WORKERS '
                'sets the number of worker processes.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
