#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the p_Cxx modules present"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/sa')
NA = {
 'C25': 'a statement about averages over random messages and noise; static analysis of the source bounds worst cases (C07-C18) but cannot measure a distribution',
 'C26': 'a computational indistinguishability claim about a hardness assumption; only the structural part (fresh full-width masks, independent of message and key) is visible in the code and that part is claimed under C07 and C18',
}
PENDING = 'no check has been built for it yet'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []; na = []
for p in props:
    i = p['id']
    if os.path.exists('%s/sa/p_%s.py' % (V, i)):
        import importlib
        M = importlib.import_module('p_' + i).META
        checks.append({'property': i, 'quick_cmd': 'python3 sa/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 sa/check.py %s --tier thorough' % i,
                       'technique': M.get('technique', 'static analysis: abstract interpretation / value-flow over the LLVM IR of the current sources with polynomial normal forms') , 'level': M['level'], 'level_note': M.get('note', M['explanation'])})
    else:
        na.append({'property': i, 'reason': NA.get(i, PENDING)})
json.dump({'version': 1, 'setup_cmd': 'python3 sa/selftest.py', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
