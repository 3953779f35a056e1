#!/usr/bin/env python3
"""Regenerate the per-property part of DESIGN.md from the check modules, the evidence, known_findings.txt and the planted changes."""
import ast, collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '\n## Properties, one by one\n'
NA = {}
exec(open(f'{V}/lib/not_applicable.py').read()) if os.path.exists(f'{V}/lib/not_applicable.py') else None
CAUGHT = json.load(open(f'{V}/lib/caught.json'))
known = open(f'{V}/known_findings.txt').read().split('\n')
out = [open(f'{V}/DESIGN.md').read().split(MARK)[0], MARK]
out.append('Method, oracle, bounds and premises are those of the check modules (`checks/cNN.py`); this part is generated by `lib/design.py`.\n')
for l in open(f'{V}/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    f = f'{V}/checks/{i.lower()}.py'
    out.append(f"\n### {i} {p['title']}\n")
    if i in NA or not os.path.exists(f):
        out.append(f"Not claimed: {NA.get(i, 'no check yet')}\n")
        continue
    d = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and getattr(n.targets[0].elts[0], 'id', '') == 'PROPERTY':
            d.update(zip([x.id for x in n.targets[0].elts], ast.literal_eval(n.value)))
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE', 'RULE', 'ASSUMPTIONS', 'BOUNDS', 'BUILD'):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append(f"* **Decided by** ({d['LEVEL']}): {d['TECHNIQUE'].rstrip('.')}.")
    out.append(f"* **Counting rule**: {d.get('RULE', '').rstrip('.')}. {d.get('LEVEL_NOTE', '')}")
    b = d.get('BOUNDS')
    if b:
        out.append('* **Bounds**: ' + '; '.join(f'{k}: {v}' for k, v in b.items()) + '.')
    if d.get('ASSUMPTIONS'):
        out.append('* **Premises**: ' + '; '.join(d['ASSUMPTIONS']) + '.')
    why = p.get('why_tests_cant')
    if why:
        out.append(f'* **Beyond the tests**: {why}')
    e = f'{V}/evidence/{i}.json'
    if os.path.exists(e):
        v = json.load(open(e))
        if v.get('tier') == 'quick':
            c = v['coverage']
            nums = ', '.join(f'{k.replace("_", " ")} {c[k]}' for k in c if isinstance(c[k], (int, float)) and not isinstance(c[k], bool) and c[k])
            out.append(f"* **Cost and reach of the quick tier**: about {max(1, round(v['wall_s']))} s on 8 cores; {nums}.")
    fx = [re.sub(r'^fixed: property=\w+ ', '', x) for x in known if x.startswith(f'fixed: property={i} ')]
    kn = [re.sub(r'^KNOWN-FINDING: property=\w+ ', '', x) for x in known if x.startswith(f'KNOWN-FINDING: property={i} ')]
    if fx:
        out.append('* **Defects found and repaired**: ' + '; '.join(f'{x.split(" ", 1)[1]} ({x.split(" ", 1)[0]})' for x in fx) + '.')
    if kn:
        out.append('* **Defects found and recorded**: ' + '; '.join(kn) + '.')
    sd = [s for s in sorted(glob.glob(f'{V}/seeded/*/meta.json')) if json.load(open(s))['property'] == i]
    for s in sd:
        m, n = json.load(open(s)), os.path.basename(os.path.dirname(s))
        out.append(f"* **Planted** `{n}`: {m['what_it_breaks']} (needs: {m['needs']}) — {'caught by ' + ', '.join(CAUGHT[n]) if CAUGHT.get(n) else 'missed by every check'}.")
with open(f'{V}/DESIGN.md', 'w') as o:
    o.write('\n'.join(out) + '\n')
