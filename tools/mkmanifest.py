#!/usr/bin/env python3
"""Writes MANIFEST.json: a check for every property run/props.py has a function for."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'run'))
import props    # noqa: E402

NOTE = {}
exec(open(os.path.join(V, 'tools', 'notes.py')).read())

checks, na = [], []
for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    i = p['id']
    if hasattr(props, i):
        checks.append({'property': i, 'quick_cmd': 'python3 run/check.py ' + i,
                       'thorough_cmd': 'VERIF_TIER=thorough python3 run/check.py ' + i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': 'TLA+ specification: TLC model checking plus trace validation of histories recorded from the code',
                       'level': 'model_checking', 'level_note': NOTE.get(i, NOTE['*'])})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the driver in harness/gudrv.c uses the public API, and the programs are run as they are.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
