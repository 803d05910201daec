#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.md (prose), proptable.py, rule docstrings, known_findings.txt and seeded/ (run by hand)."""
import ast
import glob
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import PROPS  # noqa
COST = json.load(open(os.path.join(HERE, 'tools', 'cost.json')))
out = open(os.path.join(HERE, 'tools', 'design.md')).read()
s = ''
for p in sorted(PROPS, key=lambda p: p['id']):
    f = os.path.join(HERE, 'vstat', 'rules', p['id'].lower() + '.py')
    s += '### %s - %s\n\n' % (p['id'], p['title'])
    if p.get('na'):
        s += 'Not applicable: %s\n\n' % p['na']
        continue
    t = ast.parse(open(f).read())
    ass = []
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            ass = ast.literal_eval(n.value)
    s += '%s\n\n' % ' '.join(ast.get_docstring(t).split())
    s += '* bounds: %s\n' % p['level_note']
    s += '* why beyond tests: %s\n' % p['tests']
    for a in ass:
        s += '* assumes: %s\n' % a
    s += '* cost: %s\n\n' % COST.get(p['id'], '')
out = out.replace('@PROPERTIES@', s)
known, fixed = [], []
for l in open(os.path.join(HERE, 'known_findings.txt')):
    if l.startswith('known: '):
        a, b = l[7:].split(' :: ', 1)
        pid, key = a.split(' key=', 1)
        known.append('* %s `%s`: %s' % (pid.split('=')[1], key, b.strip()))
    elif l.startswith('fixed: '):
        pid, com, rest = l[7:].strip().split(' ', 2)
        fixed.append('* %s %s: %s' % (pid.split('=')[1], com, rest))
out = out.replace('@KNOWN@', '\n'.join(known)).replace('@FIXED@', '\n'.join(fixed))
rows = ['| change | property | needs | caught by |', '|---|---|---|---|']
caught = {}
cf = os.path.join(HERE, 'tools', 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for m in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    n = os.path.basename(os.path.dirname(m))
    rows.append('| %s | %s | %s | %s |' % (n, d['property'], d['needs'].replace('|', '/'), ', '.join(caught.get(n, [])) or '?'))
out = out.replace('@SEEDED@', '\n'.join(rows))
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(out)
print(len(known), 'known', len(fixed), 'fixed', len(rows) - 2, 'seeded')
