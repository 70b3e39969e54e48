#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
TECH = {
    'default': 'runtime monitoring: seeded workloads on the real code under ASan/UBSan over a simulated OS, judged by an independent model',
    'W': 'runtime monitoring: generated inputs on the real codec under ASan/UBSan, judged by an independent reference codec',
    'M01': 'sanitizers (ASan, UBSan) under structured, mutated and coverage-guided hostile inputs',
    'M02': 'valgrind memcheck on everything sent, returned or branched on, plus differential runs over different memory fillings',
    'M03': 'ThreadSanitizer on concurrent independent use, plus comparison with sequential results and uniqueness of ids',
    'M04': 'allocation accounting in hooks of the AddressSanitizer allocator over repeated histories',
    'S03': 'fault injection at every system call with descriptor accounting, under ASan/UBSan',
    'L01': 'runtime monitoring: log event traces checked against a reference filter',
    'L02': 'differential runtime monitoring: traces of the same scenario under different logging configurations',
}
LEVEL = {'S03': 'fault_enumeration'}
NOTE = {
    'default': 'Seeded exploration, no exhaustiveness claimed; the evidence file counts what the monitors observed.',
    'S03': 'Every system call of every generated scenario fails once with a chosen error (all single faults), plus random multi-fault runs; scenarios are sampled.',
}
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(V, 'checks', p + '.cpp')):
        checks.append({'property': p, 'quick_cmd': 'python3 run.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p,
                       'technique': TECH.get(p, TECH.get(p[0], TECH['default'])), 'level': LEVEL.get(p, 'exploration'),
                       'level_note': NOTE.get(p, NOTE['default'])})
    else:
        na.append({'property': p, 'reason': 'check not built yet'})
json.dump({'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': checks, 'not_applicable': na},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
