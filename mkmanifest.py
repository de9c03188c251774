#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the harnesses present."""
import glob, json, os
V = os.path.dirname(os.path.abspath(__file__))
NOTES = json.load(open(os.path.join(V, 'level_notes.json'))) if os.path.exists(os.path.join(V, 'level_notes.json')) else {}
checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line); i = p['id']
    if glob.glob(os.path.join(V, 'harness', i + '_*.cpp')):
        n = NOTES.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + i,
                       'technique': n.get('technique', 'stateful property-based testing against a reference model, with shrinking; coverage-guided fuzzing in the thorough tier'),
                       'level': 'exploration', 'level_note': n.get('note', 'Search over generated inputs with an independent oracle; finds violations, never proves absence. Trusts the compiler, the sanitizers and the reference model in harness/%s_*.cpp.' % i)})
    else:
        na.append({'property': i, 'reason': 'check under construction'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check compiles a harness of /verif/harness against the public headers and library sources of /repo (address and undefined-behaviour sanitizers on, ASSERT active).'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
