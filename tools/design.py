#!/usr/bin/env python3
"""assembles DESIGN.md"""
import json, os, re, ast, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(V, 'tools')
why = json.load(open(os.path.join(T, 'design_props.json')))
out = open(os.path.join(T, 'design_head.md')).read()


def consts(f):
    r = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('BOUND', 'ASSUMPTIONS', 'TECHNIQUE'):
            try:
                r[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    return r


for line in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(line)
    f = os.path.join(V, 'props', p['id'].lower() + '.py')
    out += '\n### %s - %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    if not os.path.exists(f):
        out += 'Not applicable, see section 4.\n'
        continue
    c = consts(f)
    w = why.get(p['id'], {})
    out += '* *Oracle*: %s\n' % w.get('oracle', '')
    out += '* *Explored*: %s%s.\n' % ('(grid) ' if c.get('TECHNIQUE') else '', c['BOUND'])
    if c.get('ASSUMPTIONS'):
        out += '* *Assumes*: %s.\n' % '; '.join(c['ASSUMPTIONS'])
    out += '* *Beyond tests*: %s\n' % p['why_tests_cant']
    if w.get('cost'):
        out += '* *Cost (quick)*: %s\n' % w['cost']
tail = open(os.path.join(T, 'design_tail.md')).read()
k = json.load(open(os.path.join(V, 'known_findings.json')))['findings']
fi = '\n'.join('* **known** (%s): %s' % (x['property'], x['description']) for x in k if x['status'] == 'known') + '\n'
fi += '\n'.join('* ' + x['description'] for x in k if x['status'] == 'fixed')
res = {}
rf = os.path.join(T, 'seeded_results.json')
if os.path.exists(rf):
    res = json.load(open(rf))
se = '| id | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for d in sorted(glob.glob(os.path.join(V, 'seeded', '*', 'meta.json'))):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    se += '| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['what_it_breaks'].replace('|', '/'), m['needs'].replace('|', '/'), ', '.join(res.get(i, [])) or '-')
import subprocess
na = [c for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['not_applicable']]
nf = os.path.join(T, 'design_notes.md')
tail = tail.replace('{FINDINGS}', fi).replace('{SEEDED}', se)
tail = tail.replace('{NOTES}', open(nf).read() if os.path.exists(nf) else '')
open(os.path.join(V, 'DESIGN.md'), 'w').write(out + tail)
