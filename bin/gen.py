#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py and checks.py."""
import json, os, subprocess
import props, checks
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = {'guard': 'none', 'enable': 'no hooks in /repo: the harnesses link the '
         'unmodified sources and replace library calls with ld --wrap',
         'source_commits': []}
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'],
                        'mechanism': [{'name': a, 'where': b}
                                      for a, b in p['mech']],
                        'observe_at': p['observe'], 'hook_needed': None}}) +
                '\n')
m = {'version': 1, 'setup_cmd': 'python3 bin/check.py --setup', 'hooks': HOOKS,
     'checks': [], 'not_applicable': []}
for p in props.PROPS:
    c = checks.CHECKS.get(p['id'])
    if c is None:
        m['not_applicable'].append({
            'property': p['id'],
            'reason': p['na'] or 'the check is not built yet'})
        continue
    m['checks'].append({
        'property': p['id'],
        'quick_cmd': 'python3 bin/check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % p['id'],
        'technique': p['technique'], 'level': c['level'],
        'level_note': p['note']})
with open(os.path.join(H, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
