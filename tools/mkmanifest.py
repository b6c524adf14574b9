#!/usr/bin/env python3
"""Write MANIFEST.json from lib/specs.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import specs
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    s = specs.SPECS.get(p)
    if s is None:
        na.append(dict(property=p, reason='check under construction'))
        continue
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --thorough' % p,
        evidence_file='evidence/%s.json' % p, technique=s.get('technique', 'bounded exhaustive enumeration of executions of the real code against a reference model'),
        level=s['level'], level_note=s.get('note', 'Complete within the stated bounds: ' + s['rule'])))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
    notes='Every check configures /repo with CMake into a scratch directory, compiles the real sources with sanitizers and enumerates executions exhaustively within stated bounds; see DESIGN.md. No hooks in /repo are used. Known findings and repairs: known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
