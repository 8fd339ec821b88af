#!/usr/bin/env python3
"""writes MANIFEST.json from the registered checks"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'symbolic execution of the LLVM IR / assembled AVX2 code, SMT (z3: LIA + QF_BV) lemmas over all values'
NOTE = {}
exec(open(os.path.join(V, 'tools', 'manifest_notes.py')).read())
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = dict(version=1, setup_cmd='python3-vt -m compileall -q kysym check.py && python3-vt check.py --selftest', checks=[], not_applicable=[])
for p in props:
    if p in NOTE:
        m['checks'].append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p, thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                                evidence_file='evidence/%s.json' % p, technique=TECH.get(p, T), level='model_checking', level_note=NOTE[p]))
    else: m['not_applicable'].append(dict(property=p, reason=NA.get(p, 'check under construction')))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
