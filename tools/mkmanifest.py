"""regenerates MANIFEST.json from properties.jsonl and checks/"""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(ROOT, 'properties.jsonl')):
    p = json.loads(line)['id']
    f = os.path.join(ROOT, 'checks', p.lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p, 'reason': 'no check built yet'})
        continue
    tree = ast.parse(open(f).read())
    c = {n.targets[0].id: ast.literal_eval(n.value) for n in tree.body
         if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS', 'LEVEL', 'TECHNIQUE', 'NOTE')}
    checks.append({'property': p, 'quick_cmd': './check.sh %s quick' % p, 'thorough_cmd': './check.sh %s thorough' % p,
                   'technique': c['TECHNIQUE'], 'level': c['LEVEL'],
                   'level_note': c.get('NOTE', 'generated-input search; sound within the generators\' domain, no exhaustiveness claim'),
                   'evidence_file': 'evidence/%s.json' % p})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'All checks are hypothesis based property tests sharded over 8 processes; replay a failure with ./check.sh --replay <file>. No hooks in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
