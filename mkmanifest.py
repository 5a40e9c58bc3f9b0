"""Writes MANIFEST.json from the check modules that exist (run by hand after adding a check)."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)
    f = os.path.join(HERE, 'nephmon', 'checks', p['id'].lower() + '.py')
    if not os.path.exists(f):
        na.append({'property': p['id'], 'reason': 'no check built yet'})
        continue
    env = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                env[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
        'thorough_cmd': './check %s --tier thorough' % p['id'],
        'technique': env.get('TECHNIQUE', 'runtime monitoring: reference-model oracle over observed executions'),
        'level': env.get('LEVEL', 'exploration'),
        'level_note': env.get('NOTE', 'Seeded random executions judged by an independent reference; holds on what was explored. '
                              + 'Assumes: ' + ('; '.join(env.get('ASSUMPTIONS', [])) or 'nothing further') + '.')})
m = {'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the monitors use interpreter audit hooks, fork hooks and file-system snapshots from outside.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks', len(na), 'not yet')
