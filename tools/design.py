"""Compose DESIGN.md out of design/intro.md, the drivers, props.py and the planted bugs."""
import ast
import glob
import json
import os
import textwrap

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
man = json.load(open(os.path.join(here, 'MANIFEST.json')))
tech = {c['property']: c for c in man.get('checks', man.get('properties', []))} if isinstance(man.get('checks', man.get('properties')), list) else {}
out = [open(os.path.join(here, 'design', 'intro.md')).read().rstrip(), '', '## Properties', '']


def para(text, indent=''):
    return textwrap.fill(' '.join(text.split()), 92, initial_indent=indent, subsequent_indent=' ' * len(indent), break_long_words=False, break_on_hyphens=False)


seeds = {}
for f in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
ran = {}
for p in props:
    pid = p['id']
    drv = glob.glob(os.path.join(here, 'checks', pid + '_*.py'))[0]
    tree = ast.parse(open(drv).read())
    vals = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            vals[n.targets[0].id] = ast.literal_eval(n.value)
    doc = ast.get_docstring(tree).split('\n\n', 1)
    out.append('### %s - %s' % (pid, p['title']))
    out.append('')
    out.append('`%s`' % os.path.relpath(drv, here))
    out.append('')
    t = tech.get(pid, {}).get('technique')
    rows = [('Decided by', t or ''), ('Strength', tech.get(pid, {}).get('level_note', '')), ('Explored', doc[1] if len(doc) > 1 else doc[0]), ('Bounds', vals.get('BOUNDS') or '')]
    a = vals.get('ASSUMPTIONS')
    if a:
        rows.append(('Assumptions', a if isinstance(a, str) else '; '.join(a)))
    ev = os.path.join(here, 'design', 'cost.json')
    cost = json.load(open(ev)).get(pid) if os.path.exists(ev) else None
    if cost:
        rows.append(('Cost', cost))
    rows.append(('Why tests cannot', p.get('why_tests_cant', '')))
    for k, v in rows:
        if v:
            out.append(para('* %s: %s' % (k, v), ''))
    out.append('')
out += ['## Planted bugs', '', 'Every one passes the existing tests; all were confirmed with `tools/seedlib.py` (demonstration', 'quiet on the unchanged tree and failing with the change, the check of the property run against it).', '', '| bug | property | needs | caught by |', '|---|---|---|---|']
notes = json.load(open(os.path.join(here, 'design', 'caught.json'))) if os.path.exists(os.path.join(here, 'design', 'caught.json')) else {}
for pid in sorted(seeds):
    for name, m in seeds[pid]:
        out.append('| %s | %s | %s | %s |' % (name, pid, m['needs'].replace('|', '/'), notes.get(name, 'check ' + pid)))
out.append('')
with open(os.path.join(here, 'DESIGN.md'), 'w') as fh:
    fh.write('\n'.join(out))
