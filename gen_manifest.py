#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, subprocess
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
src = open(os.path.join(here, 'harness/src/props/mod.rs')).read()
NOTES = json.load(open(os.path.join(here, 'level_notes.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if 'p!("%s"' % i in src or i == 'C21':
        checks.append({
            'property': i,
            'quick_cmd': './check.sh %s quick' % i,
            'thorough_cmd': './check.sh %s thorough' % i,
            'technique': 'stateless model checking of the implementation: exhaustive enumeration of the orders in which real threads pass the boundaries of the application\'s code, under a controlled scheduler' if i == 'C21' else 'stateless model checking of the implementation: exhaustive enumeration of cases and of choice sequences (scheduling, I/O fragmentation, faults, time) up to a deviation bound, on a simulated network and clock',
            'level': 'model_checking',
            'level_note': NOTES.get(i, NOTES['default']),
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness replaces the mio and fibers dependencies with simulated ones ([patch.crates-io]) and uses only the public API of htrpc.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
