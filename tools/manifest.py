#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of properties that have scenarios."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
src = ''
d = os.path.join(V, 'harness/src/props')
for f in os.listdir(d):
    src += open(os.path.join(d, f)).read()
have = set(re.findall(r'h!\(\s*"(C\d+)"', src))
NA = {}
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'checks': [{
        'property': i,
        'quick_cmd': f'./check.sh {i} quick',
        'thorough_cmd': f'./check.sh {i} thorough',
        'technique': 'symbolic execution of the compiled contract, path conditions and assertions decided by z3 (SMT)',
        'level': 'model_checking',
        'level_note': 'Every path of the stated scenarios through the real contract code is executed with symbolic amounts; z3 shows each assertion for all values on each path, or gives a counterexample that is replayed on the unmodified build before it is reported. Bounded: number of orders, events and the tick sets given in the evidence. Trusts z3, the chain stand-in (bank, replies, storage) and the integer replacement under cosmwasm-std, the last checked on every run by replaying passing paths on the unmodified build.',
    } for i in ids if i in have],
    'not_applicable': [{'property': i, 'reason': NA.get(i, 'no scenario for it has been built yet')} for i in ids if i not in have],
    'notes': 'See DESIGN.md. known_findings.json lists repaired and recorded defects.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
