"""Writes DESIGN.md from docs/design_head.md, docs/design_tail.md, the check modules, known_findings.json and seeded/*/meta.json."""
import ast
import json
import pathlib
import re

R = pathlib.Path(__file__).resolve().parent
props = {json.loads(l)['id']: json.loads(l) for l in open(R / 'properties.jsonl')}
notes = {}
cur = None
for line in open(R / 'docs/design_props.md'):
    m = re.match(r'## (C\d\d)', line)
    if m:
        cur = m.group(1)
        notes[cur] = ''
    elif cur:
        notes[cur] += line
seeds = {}
for f in sorted((R / 'seeded').glob('*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((f.parent.name, m))
res = json.load(open(R / 'docs/seeded_results.json'))
costs = json.load(open(R / 'docs/costs.json'))
out = [(R / 'docs/design_head.md').read_text().rstrip(), '', '## Per property', '']
for i in sorted(props):
    t = ast.parse((R / 'mc/checks' / (i.lower() + '.py')).read_text())
    v = {n.targets[0].id: ast.literal_eval(n.value) for n in t.body
         if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'BOUNDS', 'ASSUMPTIONS')}
    out += ['### %s - %s' % (i, props[i]['title']), '', '*Enumerated:* %s.' % v['RULE'].rstrip('.'), '', '*Bounds:* %s.' % v['BOUNDS'].rstrip('.'), '']
    if v.get('ASSUMPTIONS'):
        out += ['*Assumed:* %s.' % '; '.join(v['ASSUMPTIONS']), '']
    out += [notes.get(i, '').strip(), '']
    c = costs.get(i, {})
    if c:
        out += ['*Cost:* ' + '; '.join('%s: %s' % (k, c[k]) for k in ('quick', 'thorough') if k in c) + '.', '']
    s = [n for n, _ in seeds.get(i, [])]
    if s:
        out += ['*Planted bugs:* %s.' % ', '.join(s), '']
out += [(R / 'docs/design_tail.md').read_text().rstrip(), '', '## Planted bugs', '',
        '`first` is what the property\'s check said when the bug was planted, `now` what it says now (1: reported, 0: missed); `others` are other checks that report it too (recorded for some).', '',
        '| id | property | needs | first | now |', '|---|---|---|---|---|']
for i in sorted(seeds):
    for n, m in seeds[i]:
        r = res.get(n, {})
        out.append('| %s | %s | %s | %s | %s |' % (n, i, str(m['needs']).replace('|', '/').replace('\n', ' '), r.get('first', '?'), r.get('now', '?')))
(R / 'DESIGN.md').write_text('\n'.join(out) + '\n')
print(len(out), 'lines')
