"""Regenerate MANIFEST.json from properties.jsonl and the contract modules present."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from na import NA
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = ('every obligation generated from the current sources of the functions under contract is discharged for all inputs (reals for '
        'floating point, overflow-checked integers); functions or clauses the verifier leaves undecided are listed in the evidence as '
        'bounded stand-ins and are not counted as proved')
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(root, 'contracts', i + '.py')) and i not in NA:
        src = open(os.path.join(root, 'contracts', i + '.py')).read()
        lv, note = 'proof', NOTE
        for l in src.splitlines():
            if l.startswith('LEVEL = '): lv = eval(l[8:])
            if l.startswith('LEVEL_NOTE = '): note = eval(l[13:])
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s' % i, thorough_cmd='python3-vt /verif/check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification of the LLVM IR compiled from /repo (pre/postconditions, frames, loop invariants; z3, cvc5, polynomial normaliser)',
                           level=lv, level_note=note, evidence_file='/verif/evidence/%s.json' % i))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract written yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='check.py --verbose lists every function under contract; --replay <file> re-runs a recorded failing input')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
