#!/usr/bin/env python3
"""Writes DESIGN.md (development tool)."""
import os, json, re, ast, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(R, 'tools', 'design')
costs = json.load(open(D + '/costs.json')) if os.path.exists(D + '/costs.json') else {}
out = [open(D + '/head.md').read()]
for line in open(R + '/properties.jsonl'):
    p = json.loads(line)
    src = glob.glob('%s/checks/%s_*.py' % (R, p['id'].lower()))[0]
    tree = ast.parse(open(src).read())
    doc = ast.get_docstring(tree) or ''
    title, _, body = doc.partition('\n')
    assume = []
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            assume = [ast.literal_eval(x) if isinstance(x, ast.Constant) else ast.unparse(x) for x in n.value.elts]
    out.append('### %s - %s\n' % (p['id'], p['title']))
    out.append('*Specified*: %s\n' % p['statement'])
    out.append('*Decided by*: %s (`%s`)\n' % (' '.join(body.split()), os.path.relpath(src, R)))
    c = costs.get(p['id'])
    if c:
        rules = dict(x.partition(': ')[::2] for x in c['rule'].split('; ') if ': ' in x)
        out.append('*Bounds, quick tier* (%s s on 8 cores; %s transitions, %s distinct states): %s.' % (
            round(c['wall']), '{:,}'.format(c['transitions']), '{:,}'.format(c['states']),
            '; '.join('%s (%s cases)%s' % (k, '{:,}'.format(v), ': ' + rules[k] if k in rules else '') for k, v in c['cases'].items())))
        if 'thorough' in c:
            t = c['thorough']
            out.append('*Thorough tier*: %s s, %s transitions, %s cases.' % (round(t['wall']), '{:,}'.format(t['transitions']), '{:,}'.format(sum(t['cases'].values()))))
        out.append('')
    out.append('*Beyond the tests*: %s\n' % p['why_tests_cant'])
    if assume:
        out.append('*Assumptions*: ' + '; '.join(assume) + '.\n')
out.append(open(D + '/tail.md').read())
caught = {}
if os.path.exists(D + '/catches.txt'):
    for line in open(D + '/catches.txt'):
        w = line.split()
        if len(w) > 2:
            caught.setdefault(w[0], []).append(w[1] + ('' if w[2] == 'rc=1' else ' (missed)'))
out.append('| bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|')
for spec in sorted(glob.glob(R + '/tools/seeds/s*.py')):
    g = {}
    exec(compile(open(spec).read(), spec, 'exec'), g)
    if g['ID'] in caught:
        out.append('| %s | %s | %s | %s | %s |' % (g['ID'], g['PROPERTY'], g['BREAKS'], g['NEEDS'], ', '.join(caught[g['ID']])))
if os.path.exists(D + '/mutants.md'):
    out.append(open(D + '/mutants.md').read())
k = [l.strip() for l in open(R + '/known_findings.txt') if l.startswith(('fixed:', 'known:'))]
fixed = {}
for l in k:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        fixed.setdefault(m.group(1), []).append('%s (%s)' % (m.group(3), m.group(2)))
out.append('\n## Defects found and repaired\n\nEach is one `fix:` commit in /repo; the check of the property reports the violation again when the commit is reverted.\n')
for p in sorted(fixed):
    out.append('* **%s**: %s.' % (p, '; '.join(fixed[p])))
out.append('\n## Known findings: defects recorded and not repaired\n\nListed in `known_findings.txt` by the signature of exactly this failure; any other violation of the property is still reported.\n')
for l in k:
    m = re.match(r'known: property=(\S+) sig=(\S+) (.*)', l)
    if m:
        out.append('* **%s** (`%s`): %s.' % (m.group(1), m.group(2), m.group(3)))
open(R + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
