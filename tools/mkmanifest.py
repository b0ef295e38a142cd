#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a contract module."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'contracts on the real functions; verification conditions generated from the current source by symbolic execution (pyvc), discharged by polynomial normal form and Z3; counterexamples replayed on the real code'
NOTE = {
 'maps': 'Proof over arbitrary (unbounded) dictionaries and names: loops and comprehensions are summarised pointwise, Z3 discharges the obligations. ',
 'poly': 'Proof for all coefficient values, parameters and scales: each output coefficient is a normal form in the input symbols and is compared with the specification (spec/). ',
}
KIND = {'C01': 'maps', 'C02': 'maps', 'C03': 'maps', 'C04': 'maps', 'C05': 'maps', 'C06': 'maps', 'C18': 'maps', 'C24': 'maps'}
TAIL = 'Trusted: the pyvc generator and its models of numpy/dict operations (checked against CPython by the native stage), Z3, exact arithmetic instead of IEEE doubles, the specification tables in spec/. Unchecked assumptions are listed per run in the evidence file. If an edit takes the code out of reach of pyvc, the native stage stands in as a bounded check and the evidence says so.'
EXTRA = {}
p = os.path.join(H, 'tools', 'levels.json')
if os.path.exists(p):
    EXTRA = json.load(open(p))
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    i = json.loads(l)['id']
    if os.path.exists(os.path.join(H, 'contracts', i.lower() + '.py')):
        e = EXTRA.get(i, {})
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i,
                       'thorough_cmd': 'python3-vt check.py %s --thorough' % i,
                       'technique': e.get('technique', T), 'level': e.get('level', 'proof'),
                       'level_note': NOTE[KIND.get(i, 'poly')] + e.get('note', '') + TAIL})
    else:
        na.append({'property': i, 'reason': 'contract not written yet'})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy, sympy"', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not claimed')
