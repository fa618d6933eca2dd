"""Regenerates DESIGN.md: design_head.md, a section per property, the findings
and the table of planted bugs."""
import ast
import json
import os

H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(H + '/tools/design_notes.json'))
RES = json.load(open(H + '/tools/results.json'))
out = open(H + '/tools/design_head.md').read()
out += '## The properties\n\n'
seeded = {}
for s in sorted(os.listdir(H + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (H, s)))
    seeded.setdefault(m['property'], []).append((s, m))
for line in open(H + '/properties.jsonl'):
    p = json.loads(line)
    vals = {}
    for node in ast.parse(open('%s/mc/checks/%s.py' % (H, p['id'].lower())).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) \
                and node.targets[0].id in ('LEVEL', 'RULE', 'ASSUMPTIONS'):
            vals[node.targets[0].id] = ast.literal_eval(node.value)
    n = NOTES.get(p['id'], {})
    out += '### %s  %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    out += '* Enumerated (%s): %s.\n' % (vals['LEVEL'].replace('_', ' '), vals['RULE'].rstrip('.'))
    out += '* Oracle: %s\n' % n['oracle']
    out += '* Why tests cannot: %s\n' % (n.get('why') or p['why_tests_cant'])
    for a in vals.get('ASSUMPTIONS', []):
        out += '* Assumption: %s\n' % a
    out += '* Quick cost: %s\n' % n['cost']
    if n.get('note'):
        out += '* Note: %s\n' % n['note']
    for s, m in seeded.get(p['id'], []):
        out += '* Planted %s: %s Needs: %s  -> %s\n' % (s, m['what_it_breaks'], m['needs'], RES.get(s, '?'))
    out += '\n'
out += open(H + '/tools/design_tail.md').read()
out += '\n## Defects repaired (one "fix:" commit each)\n\n'
k = json.load(open(H + '/known_findings.json'))
for f in k['fixed']:
    out += '* %s\n' % f
out += '\n## Defects recorded as known findings\n\n'
groups = {}
for f in k['findings']:
    g = f['what'].split(':')[0] if f['property'] in ('C07', 'C13') else f['what']
    groups.setdefault((f['property'], g), []).append(f['key'])
for (p, g), keys in groups.items():
    out += '* %s (%d key%s, e.g. `%s`): %s\n' % (p, len(keys), 's' if len(keys) > 1 else '', keys[0], g)
open(H + '/DESIGN.md', 'w').write(out)
