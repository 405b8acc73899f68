"""MANIFEST.json from the registered proofs and drivers."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from smallvc import run, props
run.load_specs()
WHY = {'P23': 'rb_insert and rb_remove rebalance through an explicit path array; the contracts over positions and black heights of every '
              'subtree that would decide it are not discharged by the back end yet, so nothing is claimed (a driver alone would be testing)'}
allp = [json.loads(l)['id'] for l in open('properties.jsonl')]
m = dict(version=1, setup_cmd='sh setup.sh', checks=[], not_applicable=[],
         notes='Contracts on the real functions, discharged by /verif/smallvc (symbolic execution of the LLVM IR clang makes of /repo\'s '
               'current source; z3 bit-vectors) on every run. See DESIGN.md. No hooks in /repo.')
for p in allp:
    P = props.PROPS.get(p)
    if P is None:
        m['not_applicable'].append(dict(property=p, reason=WHY.get(p, 'contracts not written')))
        continue
    fns = sorted({f for r in run.REG.values() if p in r['props'] for f in r['fns']})
    m['checks'].append(dict(
        property=p, quick_cmd='./check.sh %s --tier quick' % p, thorough_cmd='./check.sh %s --tier thorough' % p,
        evidence_file='evidence/%s.json' % p,
        technique='contract-based deductive verification (function contracts over the LLVM IR of the real code, z3)',
        level='proof',
        level_note=('Contracts proved for all inputs: ' + ', '.join(fns) + '. ' + P.get('note', '') +
                    ' Bounded stand-in (not counted as proved): ' + P.get('bounded', 'none') + '.' +
                    ' Trusted: clang -O0 lowering, the smallvc engine, z3' + (', ' + '; '.join(P['trusted']) if P.get('trusted') else '') + '.')))
json.dump(m, open('MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'checks')
