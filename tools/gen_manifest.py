#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
NA = {}
if os.path.exists(os.path.join(ROOT, 'tools', 'not_applicable.json')):
    NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
TECH = {
    'model_checking': 'explicit bounded exhaustive exploration of operation histories on the real code in lock-step with a reference model',
    'fault_enumeration': 'exhaustive enumeration of fault points over bounded histories on the real code, judged against a reference model',
    'exploration': 'exhaustive enumeration of a bounded input/state space on the real code against an independent oracle',
}
checks, na = [], []
for p in props:
    pid = p['id']
    fn = [f for f in os.listdir(os.path.join(ROOT, 'checks')) if f.startswith(pid.lower() + '_') and f.endswith('.py')]
    if not fn:
        na.append({'property': pid, 'reason': NA.get(pid, 'no check built yet')})
        continue
    src = open(os.path.join(ROOT, 'checks', fn[0])).read()
    tree = ast.parse(src)
    env = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'ASSUMPTIONS', 'TECHNIQUE', 'NOTE'):
            env[n.targets[0].id] = ast.literal_eval(n.value)
    doc = ' '.join((ast.get_docstring(tree) or '').split())
    note = env.get('NOTE') or doc
    note += ' Assumes: ' + '; '.join(env.get('ASSUMPTIONS', ['nothing further'])) + '.'
    checks.append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                   'evidence_file': 'evidence/%s.json' % pid,
                   'technique': 'model checking: ' + env.get('TECHNIQUE', TECH[env['LEVEL']]), 'level': env['LEVEL'], 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 -B -c "import sys; assert sys.version_info >= (3, 6)"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks drive the public interface and the files it writes. Findings are listed in known_findings.txt.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
