"""fills the two tables of DESIGN.md (between markers) from evidence, properties and seeded"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import sys; sys.path.insert(0, V + '/engine')
import specs, rules, optim
seeds = {}
lines = ['| seed | property | breaks | needs |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    seeds.setdefault(m['property'], []).append(os.path.basename(d))
    lines.append('| %s | %s | %s | %s |' % (os.path.basename(d), m['property'], m['what_it_breaks'], m['needs']))
t = ['| id | property | obligations | functions | rule and oracle | seeds |', '|---|---|---|---|---|---|']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    f = V + '/evidence/%s.json' % p['id']
    if p['id'][0] == 'N' or not os.path.exists(f):
        continue
    c = json.load(open(f))['coverage']
    rule = specs.RULE.get(p['id']) or rules.RULETEXT.get(p['id']) or optim.RULETEXT.get(p['id'], '')
    rule = rule.replace(specs._V, 'summary = specification. ').replace('|', '/')
    n = c.get('functions_analysed') or c.get('bodies') or c.get('programs') or ''
    t.append('| %s | %s | %s | %s | %s | %s |' % (p['id'], p['title'], c['obligations'], n, rule, ', '.join(seeds.get(p['id'], []))))
s = open(V + '/DESIGN.md').read()
for mark, rows in (('TABLE', t), ('SEEDS', lines)):
    a, b = '<!-- %s -->\n' % mark, '\n<!-- /%s -->' % mark
    if '@%s@' % mark in s:
        s = s.replace('@%s@' % mark, a + b)
    i, j = s.index(a) + len(a), s.index(b)
    s = s[:i] + '\n'.join(rows) + s[j:]
open(V + '/DESIGN.md', 'w').write(s)
