#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import PROPS, NOTE  # noqa

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        over, text = p['quantifier']
        row = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
               'quantifier': {'over': over, 'text': text}, 'why_tests_cant': p['tests'],
               'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']],
                           'observe_at': p.get('observe', []), 'hook_needed': None}}
        assert len(row['title']) <= 80, row['title']
        f.write(json.dumps(row) + '\n')

checks, na = [], []
for p in PROPS:
    pid = p['id']
    if p.get('na'):
        na.append({'property': pid, 'reason': p['na']})
    elif os.path.exists(os.path.join(HERE, 'vstat', 'rules', pid.lower() + '.py')):
        checks.append({'property': pid, 'quick_cmd': './check %s --tier quick' % pid,
                       'thorough_cmd': './check %s --tier thorough' % pid,
                       'evidence_file': 'evidence/%s.json' % pid,
                       'technique': p['technique'], 'level': 'other',
                       'level_note': p['level_note'] + ' ' + NOTE})
    else:
        na.append({'property': pid, 'reason': 'No check is built for this property yet; see DESIGN.md.'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, re; print(\'stdlib only\')" && chmod +x check',
     'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: every check parses /repo and never imports or runs it. No hooks in /repo.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print('%d properties, %d checks, %d not applicable' % (len(PROPS), len(checks), len(na)))
