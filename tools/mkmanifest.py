#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/plan.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'tools'))
from plan import PLAN, TECHNIQUE
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
NA = {
    'C30': 'What the bytes in a store mean to other implementations depends on nothing a schedule or fault decides: it is a pure function from metadata and values to bytes, with no concurrency, time, I/O outcome or second party in it. Deciding it needs an independent encoder/decoder, not a simulator.',
    'C32': 'The translation of compression options to metadata and back is a pure function of the options; nothing nondeterministic takes part.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in PLAN:
        note = PLAN[i].get('note', '')
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': TECHNIQUE + ': ' + PLAN[i].get('how', 'seeded search over histories, schedules and faults against a reference model'),
            'level': 'exploration',
            'level_note': ('Seeded search, not exhaustive: the property held in every run explored. ' + note + ' Trusted: the simulator runtime (scheduler, in-memory file system, allocator), the reference model, and that memory behaves sequentially consistently.').replace('  ', ' ')})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'No check built yet.')})
m = {'version': 1, 'setup_cmd': 'python3 check.py setup',
     'hooks': {'guard': 'none', 'enable': 'No hooks in /repo: the seams are the libc, pthread and allocator entry points, interposed at link time, and the compiler\'s -fsanitize=thread instrumentation calls, answered by the simulator (libtsan is not linked).', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'python3 check.py replay FILE repeats a reported violation. See DESIGN.md.'}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
