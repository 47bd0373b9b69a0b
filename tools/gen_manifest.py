#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from tools/props.py and properties.jsonl."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
PURE = ('a pure function of its input: no schedule, clock, I/O, fault or history can affect it, so there is nothing for a simulator to decide '
        '(that such operations are unaffected by other threads and by failing allocations is claimed under C04, C05, C08 and C17)')
NOTE = ('Seeded search, so a sample: absence of a violation is evidence, not proof. Trusts the simulator (/verif/sim), the oracle in /verif/harness/%s.cpp, clang instrumentation and libstdc++. '
        'Context switches happen at memory accesses and synchronisation operations of the instrumented code, under sequential consistency; weaker memory behaviour is covered only through race detection.')
checks = [dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, evidence_file='evidence/%s.json' % p,
               technique='deterministic simulation with fault injection (seeded schedules and faults, ' + PROPS[p].get('oracle', 'reference model') + ')', level='exploration',
               level_note=NOTE % p + PROPS[p].get('note', '')) for p in ids if p in PROPS]
na = [dict(property=p, reason=PURE if p[0] == 'N' else 'check under construction') for p in ids if p not in PROPS]
json.dump(dict(version=1, setup_cmd='python3 check.py build', checks=checks, not_applicable=na,
               notes='No hooks in /repo: all seams are at the link level (threads, locks, clocks, memory, entropy are intercepted in the check binaries).'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
