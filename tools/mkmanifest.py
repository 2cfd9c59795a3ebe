"""writes MANIFEST.json from specs/props.py and properties.jsonl"""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [os.path.join(H, 'engine'), os.path.join(H, 'specs')]
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in props.PROPS:
        P = props.PROPS[i]
        checks.append(dict(property=i, quick_cmd=f'./check.py {i} --tier quick', thorough_cmd=f'./check.py {i} --tier thorough', evidence_file=f'evidence/{i}.json',
                           technique='contract-based deductive verification: function contracts, loop invariants and lemmas discharged by z3 over VCs generated from the LLVM IR of the current sources',
                           level=P.get('level', 'proof'), level_note=P.get('note', '') or 'Unbounded proof of the listed contracts, given the trusted base and assumptions in the evidence file.'))
    else: na.append(dict(property=i, reason=props.NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='The checks verify the LLVM IR compiled from /repo/src on every run; /repo contains no hooks. A VIOLATION that carries a concrete input was replayed on the real code; one ending in no-failing-input-found names the failed obligation only.'),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
