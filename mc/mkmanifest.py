"""Regenerates MANIFEST.json from properties.jsonl and the checks present."""
import ast
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {'model_checking': 'explicit-state model checking of the real code against a reference model',
    'exploration': 'bounded exhaustive enumeration (model checking) of the real code against a reference model',
    'fault_enumeration': 'exhaustive fault-sequence enumeration on the real code (stateless model checking)'}
NA = {}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    path = os.path.join(HERE, 'mc', 'checks', pid.lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': pid, 'reason': NA.get(pid, 'Check not built yet.')})
        continue
    vals = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('LEVEL', 'RULE', 'TECHNIQUE'):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({'property': pid, 'quick_cmd': './check.sh ' + pid,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + pid,
        'evidence_file': 'evidence/%s.json' % pid,
        'technique': vals.get('TECHNIQUE', TECH[vals['LEVEL']]),
        'level': vals['LEVEL'], 'level_note': 'Exhaustive within stated bounds: ' + vals['RULE']})
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
    'notes': 'Pure Python; checks import the code from /repo directly. No hooks.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not built')
