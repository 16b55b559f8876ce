#!/usr/bin/env python3
"""Rewrite the generated part of DESIGN.md (between the markers) from the rules, the planted bugs and the findings."""
import sys, os, json, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
man = json.load(open(V + '/MANIFEST.json'))
na = {x['property']: x['reason'] for x in man['not_applicable']}
bugs = {}
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(V + '/seeded/%s/meta.json' % b))
    bugs.setdefault(m['property'], []).append((b, m))
finds = {}
for l in open(V + '/known_findings.txt'):
    if l.startswith(('known:', 'fixed:')):
        k, rest = l.split(': ', 1)
        p = rest.split('property=', 1)[1].split()[0]
        finds.setdefault(p, []).append((k, rest.split(' ', 1)[1].strip()))
out = []
for p in props:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    if i in na:
        out.append('Not applicable: %s.\n' % na[i].rstrip('.'))
        continue
    m = importlib.import_module('rules.' + i.lower())
    out.append('Rule. ' + ' '.join(m.RULE.split()) + '\n')
    if getattr(m, 'ASSUME', None):
        out.append('Assumes: ' + '; '.join(m.ASSUME) + '.\n')
    out.append('Fails if fewer obligations were met than: ' + ', '.join('%s %d' % kv for kv in m.FLOORS.items()) + '.\n')
    for k, t in finds.get(i, []):
        out.append('- %s: %s' % ({'known': 'known finding', 'fixed': 'defect repaired'}[k], t))
    for b, x in bugs.get(i, []):
        out.append('- planted bug `%s` (caught): %s' % (b, x['what_it_breaks'].strip().rstrip('.')))
    out.append('')
s = open(V + '/DESIGN.md').read()
a, b = '<!-- generated: tools/mkdesign.py -->\n', '<!-- end generated -->'
head, tail = s.split(a)[0], s.split(b, 1)[1]
open(V + '/DESIGN.md', 'w').write(head + a + '\n'.join(out) + '\n' + b + tail)
