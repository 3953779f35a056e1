#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from the check modules present."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
exec(open(f'{V}/lib/not_applicable.py').read()) if os.path.exists(f'{V}/lib/not_applicable.py') else None
props = [json.loads(l)['id'] for l in open(f'{V}/properties.jsonl')]
checks, na = [], []
for i in props:
    f = f'{V}/checks/{i.lower()}.py'
    if i not in NA and os.path.exists(f):
        d = {}
        for n in ast.parse(open(f).read()).body:
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and getattr(n.targets[0].elts[0], 'id', '') == 'PROPERTY':
                d.update(zip([x.id for x in n.targets[0].elts], ast.literal_eval(n.value)))
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
                d[n.targets[0].id] = ast.literal_eval(n.value)
        checks.append(dict(property=i, quick_cmd=f'python3 lib/run.py {i}', thorough_cmd=f'python3 lib/run.py {i} --tier thorough',
                           evidence_file=f'evidence/{i}.json', technique=d['TECHNIQUE'], level=d['LEVEL'], level_note=d['LEVEL_NOTE']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check is registered for this property yet (work in progress)')))
with open(f'{V}/MANIFEST.json', 'w') as o:
    json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=dict(guard='CANTERA_VERIF_HOOKS', enable='no hooks in /repo are needed; harnesses use public and protected interfaces only', source_commits=[]), checks=checks, not_applicable=na), o, indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
