#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json (run after editing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
N = []   # not applicable


def prop(id, title, statement, over, text, why, files, mech, note=None, na=None):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note, na))


I = 'include/eosio/'
exec(open(os.path.join(V, 'tools', 'proptab.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
BASE = ('Every obligation (contract postcondition, memory safety of each access, loop bound or loop invariant, no stray exception) '
        'generated from the LLVM IR clang 18 makes of /repo\'s current source is discharged by z3/cvc5. ')
TRUST = (' Trusted: clang front end at -O1, the VC generator in /verif/vcgen, the solvers, and the contracts of libc/libstdc++ runtime '
         'entry points listed in the evidence file.')
m = dict(version=1, setup_cmd='bin/setup',
         checks=[dict(property=p['id'], quick_cmd='bin/check ' + p['id'], thorough_cmd='VERIF_TIER=thorough bin/check ' + p['id'],
                      technique='contract-based deductive verification (VCs over LLVM IR, SMT)', level='proof',
                      level_note=BASE + (note or '') + TRUST)
                 for p, note, na in P if not na],
         not_applicable=[dict(property=p['id'], reason=na) for p, note, na in P if na])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties', len(m['checks']), 'checks')
