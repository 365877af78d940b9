#!/usr/bin/env python3
"""writes MANIFEST.json from the table of checks in check.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import check
NA = {}
try:
    exec(open(os.path.join(V, 'tools', 'not_applicable.py')).read())
except FileNotFoundError:
    pass
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
import importlib
out = {'version': 1, 'setup_cmd': 'true', 'hooks': [], 'checks': [], 'not_applicable': []}
old = json.load(open(os.path.join(V, 'MANIFEST.json')))
for k in ('hooks',):
    if k not in old:
        out.pop(k)
for p in props:
    if p in check.WHERE:
        C = importlib.import_module('checks.' + check.WHERE[p]).CHECKS[p]
        out['checks'].append({
            'property': p,
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p,
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p,
            'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the LLVM IR of /repo\'s current sources, discharged by z3',
            'level': C.level,
            'level_note': C.note if getattr(C, 'note', None) else C.explain[:600]})
    else:
        out['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check built yet')})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
