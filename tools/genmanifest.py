"""MANIFEST.json from properties.jsonl and contracts/."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
p = os.path.join(H, 'tools', 'level_notes.json')
if os.path.exists(p):
    NOTES = json.load(open(p))
DEF = ('Every postcondition is discharged by the verifier from /repo\'s current source for all sizes, ranks and values; '
       'tensor orders/axis lists are enumerated up to the bound stated in the evidence. TensorFlow/numpy are assumed contracts, '
       'arithmetic is over the reals; the same contracts are also evaluated at run time on the real code.')
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    q = json.loads(l)
    i = q['id']
    if os.path.exists(os.path.join(H, 'contracts', i + '.py')):
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % i,
                           technique='contract-based deductive verification (own VC generator over /repo\'s source, '
                                     'algebraic normaliser + z3)',
                           level=NOTES.get(i, {}).get('level', 'proof'), level_note=NOTES.get(i, {}).get('note', DEF)))
    else:
        na.append(dict(property=i, reason=NOTES.get(i, {}).get('na', 'no check yet')))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
         notes='pv/ is the verifier, contracts/ the specifications, replay/ the run-time contracts. See DESIGN.md.')
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')
