#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py and the registered rules."""

import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
from hsa import report, rules   # noqa: E402,F401
from props import P, NA         # noqa: E402

TRUST = ('Decided from the current source on every run. Trusts the abstract interpreter in hsa/ and its models of queues, '
         'processes and the database layer; paths are merged only where abstract states coincide, loops are unrolled to the '
         'first repetition of an abstract state or a fixed bound.')

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as out:
    for pid in sorted(P):
        d = {k: v for k, v in P[pid].items() if k != 'note'}
        assert len(d['title']) <= 80, (pid, len(d['title']))
        out.write(json.dumps(d) + '\n')

checks = []
for pid in sorted(P):
    if pid in NA:
        continue
    r = report.RULES[pid]
    checks.append({'property': pid, 'quick_cmd': f'python3 check.py {pid}', 'thorough_cmd': f'python3 check.py {pid} --thorough',
                   'technique': 'static analysis: ' + r['technique'], 'level': 'other',
                   'level_note': P[pid]['note'] or r.get('explanation', '') + ' ' + TRUST})
assert set(report.RULES) <= set(P), set(report.RULES) - set(P)
manifest = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
            'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
            'notes': 'No hooks: nothing in /repo is instrumented. Every check parses /repo/src/hypershell afresh and runs none of it.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as out:
    json.dump(manifest, out, indent=1)
    out.write('\n')
print(len(P), 'properties,', len(checks), 'checks')
