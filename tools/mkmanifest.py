#!/usr/bin/env python3
"""writes MANIFEST.json from vc/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'vc'))
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []; na = []
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        note = ('' if p.get('level','proof')=='proof' else 'NOT A PROOF of the property as a whole. ') + 'Machine-checked contracts on the real code, discharged for all inputs by z3/cvc5 on every run: ' + ', '.join(p['fns']) + ' (plus every callee contract they use).'
        if p.get('bounded'): note += ' Bounded only (native search on the real library, never counted as proved): ' + '; '.join(p['bounded']) + '.'
        note += ' Trusts: the verification-condition generator vc/sym.py, the libc/GSL models in vc/lib.py, goto-cc, z3/cvc5; reals for doubles, no integer wrap-around in sums/products, sequential semantics, allocation succeeds.'
        if p.get('note'): note += ' ' + p['note']
        checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
                           technique='contract-based deductive verification (own VC generator over goto-cc output, z3/cvc5); native replay for counterexamples' + (' and bounded stand-in' if p.get('bounded') else ''),
                           level=p.get('level', 'proof'), level_note=note))
    else: na.append(dict(property=i, reason=props.NA.get(i, 'No contract decides this yet; not claimed.')))
m = dict(version=1, setup_cmd='python3-vt vc/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo: the checks work on the unmodified sources. See DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
