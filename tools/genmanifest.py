#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the notes below."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
notes = json.load(open(os.path.join(here, 'tools', 'claims.json')))
checks, na = [], []
for p in props:
    n = notes.get(p['id'])
    if n and 'technique' in n:
        checks.append({'property': p['id'], 'quick_cmd': './run.sh %s quick' % p['id'], 'thorough_cmd': './run.sh %s thorough' % p['id'],
                       'technique': n['technique'], 'level': 'exploration', 'level_note': n['note']})
    else:
        na.append({'property': p['id'], 'reason': (n or {}).get('reason', 'its monitor is not finished yet')})
m = {'version': 1, 'setup_cmd': './run.sh --setup',
     'hooks': {'guard': 'instr', 'enable': 'no hook is committed in /repo: harness/cmd/instr derives instrumented copies of its current sources (perturbation points, bubble-aware mutexes) and the checks build them with go -overlay and -tags instr', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'See DESIGN.md. Checks exit 0/1; exit 2 means the tree could not be built, 3 that most executions were inconclusive.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
