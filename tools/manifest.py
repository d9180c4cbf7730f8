#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
TECH = {}
exec(open(os.path.join(HERE, 'tools', 'techniques.py')).read())
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'pv', 'checks', pid.lower() + '.py')) and pid in TECH:
        t, note = TECH[pid]
        checks.append({
            'property': pid,
            'quick_cmd': './run.py %s' % pid,
            'thorough_cmd': './run.py %s --thorough' % pid,
            'technique': t,
            'level': 'exploration',
            'level_note': note,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check is a generated-input search (Hypothesis choice sequences, 8 worker processes) against an explicit '
              'oracle; see DESIGN.md.  No hooks are needed in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
