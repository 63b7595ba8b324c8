#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and specs.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from specs import SPECS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = {}
try:
    from specs import NOT_APPLICABLE as NA
except ImportError: pass
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': [],
     'notes': 'All checks: symbolic execution of LLVM IR compiled from /repo on each run, assertions decided by Z3, counterexamples replayed natively. See DESIGN.md.'}
for p in props:
    i = p['id']
    if i in SPECS:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 tools/check.py %s' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
            'technique': 'symbolic execution of the compiled code (LLVM IR) with an SMT solver (Z3)', 'level': 'model_checking',
            'level_note': SPECS[i].get('note', 'Every assertion is decided by the solver for all inputs within the bounds stated per entry in the evidence file: ' + '; '.join('%s: %s' % (e['entry'], e['bounds']) for e in SPECS[i]['entries'])[:900])})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
import jsonschema
jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(m['checks']), 'checks', len(m['not_applicable']), 'not applicable')
