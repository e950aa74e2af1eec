"""writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NOT_APPLICABLE

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
             'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
             'why_tests_cant': p['why'],
             'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in PROPS:
    if p['id'] in NOT_APPLICABLE:
        na.append({'property': p['id'], 'reason': NOT_APPLICABLE[p['id']]})
    elif not os.path.exists(os.path.join(HERE, 'contracts', p['id'].lower() + '.py')):
        na.append({'property': p['id'], 'reason': 'no contract written yet'})
    else:
        checks.append({'property': p['id'],
                       'quick_cmd': 'python3-vt -m dv.run %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3-vt -m dv.run %s --tier thorough' % p['id'],
                       'technique': 'contract-based deductive verification of the real Python source (own VC generator; z3 + field-identity back ends)',
                       'level': p.get('level', 'proof'),
                       'level_note': p['note']})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sympy"', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
