#!/usr/bin/env python3
"""Write DESIGN.md from tool/design/*.md, the checks, the property texts and the planted bugs."""
import ast, glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
tech = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man.get('not_applicable', [])}
seeds = {}
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    seeds.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m['needs']))
o = [open(H + '/design/head.md').read().rstrip(), '']
for p in sorted(props, key=lambda p: p['id']):
    i = p['id']
    f = V + '/checks/%s.py' % i.lower()
    if i in na or not os.path.exists(f):
        continue
    s = open(f).read()
    o += ['### %s %s' % (i, p['title']), '', p['statement'], '']
    o += ['*Method.* ' + ' '.join((ast.get_docstring(ast.parse(s)) or '').split()), '']
    c = tech.get(i, {})
    if c.get('level_note') or c.get('notes'):
        o += ['*Reach.* ' + (c.get('level_note') or c.get('notes')), '']
    o += ['- %s: %s' % (a, b.replace("\\'", "'")) for a, b in re.findall(r"ctx\.rule\('(\w+)', '((?:[^'\\]|\\.)*)'", s)]
    o += ['', '*Planted bugs caught.* ' + ('; '.join('`%s` (%s)' % x for x in seeds.get(i, [])) or 'none of its own'), '']
o += ['## 3. Not decided by static analysis', '']
for i, r in sorted(na.items()):
    t = [p['title'] for p in props if p['id'] == i]
    o += ['* **%s %s.** %s' % (i, t[0] if t else '', r)]
o += [open(H + '/design/tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
