#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the entries in tools/props_meta.py
(only properties with a check module are claimed)."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props_meta import PROPS, NOT_APPLICABLE

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fp:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        fp.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'],
                         mechanism=[dict(name=n, where=w) for n, w in p['mech']],
                         observe_at=p['observe'], hook_needed=None))) + '\n')

na = {n['property'] for n in NOT_APPLICABLE}
checks = []
for p in PROPS:
    if p['id'] in na:
        continue
    assert os.path.exists(os.path.join(ROOT, 'harness', 'props', p['id'].lower() + '.py')), p['id']
    checks.append(dict(property=p['id'], quick_cmd='./check.sh %s' % p['id'],
                       thorough_cmd='./check.sh %s --tier thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=p['technique'], level='exploration',
                       level_note=p['note']))
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fp:
    json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=NOT_APPLICABLE,
                   notes='No hooks: every check drives the real modules in /repo directly. See DESIGN.md.'),
              fp, indent=1)
    fp.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
