#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, the metadata and the planted bugs."""
import re, json, os, glob
os.chdir(os.path.dirname(os.path.abspath(__file__)))
P = [json.loads(l) for l in open('properties.jsonl')]
M = {c['property']: c for c in json.load(open('MANIFEST.json'))['checks']}
o = [open('design_head.md').read(), '\n## Properties: what is generated, against what oracle, at what cost\n']
def g(t, n):
    m = re.search(r'p\.' + n + r'\s*=\s*\{?((?:\s*"(?:[^"\\]|\\.)*",?)+)', t)
    return ' '.join(x.replace('\\"', '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) if m else ''
T = json.load(open('timings.json')) if os.path.exists('timings.json') else {}
for p in P:
    i = p['id']; t = open('src/%s.cpp' % i.lower()).read(); m = M[i]
    q = re.search(r'p\.quick\w*\s*=\s*([^;]+);', t).group(1); th = re.search(r'p\.thorough\w*\s*=\s*([^;]+);', t).group(1)
    o.append('\n### %s. %s\n' % (i, p['title']))
    o.append('- Quantified over %s: %s\n- Method: %s.\n- Cases and rule: %s\n' % (', '.join(p['quantifier']['over']), p['quantifier']['text'], m['technique'], g(t, 'rule')))
    a = g(t, 'assumptions')
    if a: o.append('- Assumptions: %s\n' % a)
    o.append('- Strength: %s (%s)\n' % (m['level'], m['level_note']))
    o.append('- Bounds and cost: quick %s cases%s, thorough %s cases.\n' % (q, ' (about %s s alone on 8 cores)' % T[i] if i in T else '', th))
    o.append('- Beyond the tests: %s\n' % p['why_tests_cant'])
o.append('\n## Planted bugs and which check catches them\nEvery change below builds, passes the 38 stable tests, and has a demonstration. "Caught by" is the quick check run on it.\n\n| planted bug | caught by | needs |\n|---|---|---|\n')
for d in sorted(glob.glob('seeded/*/meta.json')):
    j = json.load(open(d)); o.append('| %s | %s | %s |\n' % (d.split('/')[1], j.get('caught', j['property']), j['needs'].replace('|', '/')))
if os.path.exists('design_tail.md'): o.append('\n' + open('design_tail.md').read())
open('DESIGN.md', 'w').write(''.join(o))
