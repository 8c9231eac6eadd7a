"""Regenerates properties.jsonl and MANIFEST.json from the META of the contract modules in props/ (and NOT_APPLICABLE below)."""
import sys, os, json, importlib.util, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.na import NOT_APPLICABLE, EXTRA
props, checks = [], []
for p in sorted(glob.glob(os.path.join(ROOT, 'props', 'P[0-9]*.py'))):
    spec = importlib.util.spec_from_file_location(os.path.basename(p)[:-3], p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    M = m.META
    d = {'id': m.ID, 'title': M['title'], 'statement': M['statement'], 'quantifier': {'over': M['over'], 'text': M['quant']},
         'why_tests_cant': M['why'], 'anchors': {'files': M['files'], 'mechanism': [{'name': a, 'where': b} for a, b in M['mech']]}}
    if M.get('observe'):
        d['anchors']['observe_at'] = M['observe']
    d['anchors']['hook_needed'] = None
    assert len(M['title']) <= 80, (m.ID, len(M['title']))
    props.append(d)
    checks.append({'property': m.ID, 'quick_cmd': 'python3-vt -m gcv.run %s --tier quick' % m.ID, 'thorough_cmd': 'python3-vt -m gcv.run %s --tier thorough' % m.ID,
                   'technique': 'contract-based deductive verification of the compiled source (gcv + z3/cvc5)', 'level': getattr(m, 'LEVEL', 'proof'), 'level_note': M['note']})
props += EXTRA
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for d in sorted(props, key=lambda d: d['id']):
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': NOT_APPLICABLE,
       'notes': 'gcv is a deductive verifier built here (no C++ contract verifier is installed); see DESIGN.md. No hooks are needed in /repo.'}
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
import jsonschema
jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
for d in props:
    jsonschema.validate(d, json.load(open('/root/.vp/PROPERTIES.schema.json')))
print(len(props), 'properties', len(checks), 'checks')
