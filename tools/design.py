#!/usr/bin/env python3
"""writes DESIGN.md: hand-written sections (design_text.py), rules from the checks, claims, seeds, findings"""
import os, re, json, ast, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(V)
import sys
sys.path.insert(0, V + '/tools')
import design_text as T
claims, na = {}, {}
g = dict(claims=claims, na=na)
src = open('tools/claims.py').read()
exec(compile(src, 'claims.py', 'exec'), g)
claims, na = g['claims'], g['na']
props = [json.loads(l) for l in open('properties.jsonl')]
known = json.load(open('known_findings.json'))
seeds = {}
for d in sorted(os.listdir('seeded')):
    m = json.load(open('seeded/%s/meta.json' % d))
    seeds.setdefault(m['property'], []).append((d, m))
cost = {}
for p in props:
    f = 'evidence/%s.json' % p['id']
    if os.path.exists(f):
        e = json.load(open(f))
        cost[p['id']] = e


def rule(pid):
    f = 'checks/%s.py' % pid.lower()
    t = ast.parse(open(f).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'RULE':
            return ast.literal_eval(n.value)
    return ''


o = [T.HEAD]
o.append('## Properties that are decided\n')
for p in props:
    i = p['id']
    if i not in claims:
        continue
    o.append('### %s %s\n' % (i, p['title']))
    o.append('*Property.* %s\n' % p['statement'])
    o.append('*Decided by.* %s. %s\n' % (claims[i][0][0].upper() + claims[i][0][1:], rule(i)))
    o.append('*Bounds.* %s\n' % claims[i][1].replace(g.get('TRUST', '\0'), '').strip())
    if i in T.NOTES:
        o.append('*Notes.* %s\n' % T.NOTES[i].strip())
    if seeds.get(i):
        o.append('*Planted changes caught.* %s.\n' % '; '.join('`%s` (%s)' % (d, m['what_it_breaks'].rstrip('.')) for d, m in seeds[i]))
o.append('## Properties not decided\n')
for p in props:
    if p['id'] in na:
        o.append('* **%s %s** - %s' % (p['id'], p['title'], na[p['id']]))
o.append('\n' + T.SEEDS)
o.append('| planted change | property | needs | caught by |\n|---|---|---|---|')
for i in sorted(seeds):
    for d, m in seeds[i]:
        o.append('| %s | %s | %s | %s |' % (d, i, m['needs'].replace('|', '/'), i if i in claims else 'not caught'))
o.append('\n## Findings\n')
o.append(T.FIND)
for k in known:
    o.append('* %s: %s' % (k['property'], k['fixed'].split(' ', 2)[2] if 'fixed' in k else 'KNOWN (not repaired) `%s`: %s' % (k['key'], k['what'])))
o.append('\n' + T.TAIL)
open('DESIGN.md', 'w').write('\n'.join(o) + '\n')
print(len('\n'.join(o)), 'bytes')
