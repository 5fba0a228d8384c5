#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check modules present."""
import ast, json, pathlib
R = pathlib.Path(__file__).parent
props = [json.loads(l) for l in (R / 'properties.jsonl').read_text().splitlines()]
checks, na = [], []
for p in props:
    f = R / 'mc' / 'checks' / (p['id'].lower() + '.py')
    if not f.exists():
        na.append(dict(property=p['id'], reason='check not built yet'))
        continue
    tree = ast.parse(f.read_text())
    v = {}
    for n in tree.body:
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, ast.Tuple) and [a.id for a in t.elts] == ["ID", "LEVEL"]:
                for a, b in zip(t.elts, n.value.elts):
                    v[a.id] = ast.literal_eval(b)
            elif isinstance(t, ast.Name) and t.id in ('RULE', 'BOUNDS', 'ASSUMPTIONS', 'TECHNIQUE'):
                v[t.id] = ast.literal_eval(n.value)
    mc = v['LEVEL'] == 'model_checking'
    checks.append(dict(
        property=p['id'], quick_cmd='./check ' + p['id'],
        thorough_cmd='VERIF_TIER=thorough ./check ' + p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=v.get('TECHNIQUE') or (
            'explicit-state model checking of the real code: depth-first enumeration of all environment choices within '
            'bounds, every transition compared with a reference model' if mc else
            'bounded exhaustive enumeration of inputs and configurations of the real code against a reference model'),
        level=v['LEVEL'],
        level_note='Exhaustive within: %s. Enumerated: %s. Assumes: %s' % (
            v['BOUNDS'], v['RULE'], '; '.join(v.get('ASSUMPTIONS', [])) or 'the reference model in mc/ref.py and the harness')))
m = dict(version=1, setup_cmd='true', hooks=dict(guard='CBX_VERIF', enable='no hooks in /repo: the harness drives public seams', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks import cbx from /repo\'s working tree (compiled from source on every run). VERIF_TIER selects the bounds.')
(R / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
