#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (checks/*.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/lib']
sys.dont_write_bytecode = True
from checks import REGISTRY
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
GEN = 'TLA+ spec checked with TLC; replay of spec-generated tests and trace validation of recorded executions'
NOTES = {
    'tests': 'Bounded model of the specification explored exhaustively by TLC; every explored behaviour is replayed in the '
             'real code, and longer random executions of the real code (public API, AddressSanitizer) are validated event '
             'by event against the specification. Trusts TLC, the compiler and the harness; bounds are in DESIGN.md.',
    'C28': 'All interleavings of a small model of threads are explored by TLC; the real code is run by six threads at once, '
           'repeatedly, and every thread\'s record is validated event by event against the sequential specifications. The '
           'schedules of the real code are sampled, not exhausted. Trusts TLC, the compiler and the harness.'}
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
     'notes': 'TLA+ / TLC. No hooks: every check observes the public interface only. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in REGISTRY:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                            'evidence_file': 'evidence/%s.json' % i, 'technique': GEN, 'level': 'model_checking',
                            'level_note': NOTES.get(i, NOTES['tests'])})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'planned; its specification is not built yet'})
if not m['not_applicable']:
    del m['not_applicable']
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
print(len(m['checks']), 'checks')
