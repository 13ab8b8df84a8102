#!/usr/bin/env python3
"""Generates /verif/MANIFEST.json from the table of claimed checks."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'LLVM-IR symbolic execution + SMT (z3)'
LIN = 'symbolic execution of the real LLVM IR, integer-arithmetic SMT queries (z3)'
BV = 'symbolic execution of the real LLVM IR, bit-vector SMT queries (z3)'
CLAIMS = {
    'P01': (LIN, 'Every canonical operand pair at full width; no loop is cut. Trusts rustc up to unoptimised LLVM IR, the IR executor and z3.'),
    'P02': (LIN, 'Every canonical operand pair at full width; limb products are integer atoms with their exact range (sound over-approximation). Trusts rustc up to unoptimised LLVM IR, the IR executor and z3.'),
}
NA = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'claims.py')) else None
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
ids = [p['id'] for p in props]
checks = []
for i in ids:
    if i in CLAIMS:
        t, n = CLAIMS[i][:2]
        checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick ./run.py %s' % i, thorough_cmd='VERIF_TIER=thorough ./run.py %s' % i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=(CLAIMS[i][2] if len(CLAIMS[i]) > 2 else 'model_checking'), level_note=n))
na = [dict(property=i, reason=NA.get(i, 'check not built yet')) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='Solver-based checking of the real code; see DESIGN.md. No hooks in /repo: the harnesses drive the public API or a source overlay generated from the working tree.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
