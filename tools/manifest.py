#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
RT = 'contracts on the real C runtime, discharged by CBMC (SAT and z3)'
CLAIMED = {
 'C26': ('contracts on the real C runtime, discharged by z3 on the LLVM IR (CBMC where that does not reach)', 'every argument value; a numeral has finitely many digits, no path is cut off; callee contracts are C28 and C29'),
 'C27': ('contracts and inferred loop invariants on the LLVM IR of the real printf.c, discharged by z3', 'every format, string and argument list of any length; callee contracts are C26 and C28'),
 'C28': (RT, 'every word, string size and index; loops unwound completely'),
 'C29': (RT, 'every argument and system call result'),
}
try:
    from claimed import GO
except ImportError:
    GO = {}
CLAIMED.update(GO)
checks = []
for p in props:
    if p in CLAIMED:
        t, note = CLAIMED[p][:2]
        cmd = 'python3 runtime/check.py ' + p if p in ('C26', 'C27', 'C28', 'C29') else 'bash tools/check.sh ' + p
        checks.append(dict(property=p, quick_cmd=cmd, thorough_cmd=cmd, technique=t, level='proof', level_note=note))
na = [dict(property=p, reason='the contracts for this property are not finished yet') for p in props if p not in CLAIMED]
json.dump(dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
