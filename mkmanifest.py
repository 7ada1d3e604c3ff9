#!/usr/bin/env python3
"""Rewrites MANIFEST.json from harness/spec.py (development helper)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
from harness.spec import SPEC
ids = [json.loads(l)['id'] for l in open(HERE + '/properties.jsonl')]
checks = []
for i in ids:
    if i not in SPEC: continue
    s = SPEC[i]
    checks.append(dict(property=i, quick_cmd='python3 run_check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 run_check.py ' + i,
        evidence_file='evidence/%s.json' % i, level='exploration',
        technique=s.get('technique', 'runtime monitoring: seeded stress workload against an independent reference-model oracle, under ASan+UBSan' + (' and TSan' if 'tsan' in s['builds'] else '')),
        level_note=s.get('note', 'Held on the executions listed in the evidence (seeded random and enumerated workloads); says nothing about inputs outside the generated family. Trusts the reference model in harness/src, gcc sanitizers and Eigen.')))
m = dict(version=1, setup_cmd='python3 setup_check.py', checks=checks,
    not_applicable=[dict(property=i, reason='check not built yet') for i in ids if i not in SPEC],
    notes='Every check builds lib_moment from the working tree in /repo with its own CMake file (harness/), runs one process per section, and judges the recorded results; see DESIGN.md.')
m['hooks'] = None
del m['hooks']
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in m['not_applicable']])
