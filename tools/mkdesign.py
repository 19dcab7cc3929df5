#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md, one section per property from the check modules and their last evidence, tools/design_tail.md"""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = [open(V + '/tools/design_head.md').read()]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    f = V + '/dcv/props/%s.py' % i.lower()
    if i in na or not os.path.exists(f):
        out.append('Not applicable: %s\n' % na.get(i, ''))
        continue
    m = ast.parse(open(f).read())
    doc = ast.get_docstring(m).split('\n', 1)[1].strip('\n')
    out.append('```\n%s\n```\n' % doc)
    c = {}
    for n in m.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('ASSUMPTIONS', 'TRUSTED'):
            try:
                c[n.targets[0].id] = ast.literal_eval(n.value)
            except Exception:
                pass
    if c.get('ASSUMPTIONS'):
        out.append('Assumed: ' + '; '.join(c['ASSUMPTIONS']) + '.\n')
    e = V + '/evidence/%s.json' % i
    if os.path.exists(e):
        d = json.load(open(e))['coverage']
        ts = [t for t in d['tasks'] if t['label'] == 'proof' or t['label'] == 'lemma']
        out.append('Last run: %d tasks, %d obligations; back ends %s; functions under contract: %s.\n' % (
            len(ts), d['obligations'], ', '.join(sorted(d['back_ends'])), ', '.join(sorted({'::'.join(x.split('::')[-2:]) for x in d['functions_under_contract'] if x})) or 'none (lemmas)'))
out.append('## 4. Planted changes and what catches them\n')
out.append('`seeded/<id>/` holds the patch, a demonstration and what it needs. Each was tried with the check of its property (column two) on the patched tree; "proof" means a named obligation fails, "native" that the replay on the compiled code fails too.\n')
caught = dict(l.strip().split(' ', 1) for l in open(V + '/tools/caught.txt') if l.strip())
out.append('| change | property | needs | result |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % d))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], caught.get(d, '?')))
out.append('')
out.append(open(V + '/tools/design_tail.md').read())
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
