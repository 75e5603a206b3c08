#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
import props
root = os.path.dirname(here)
ids = set()
checks, na = [], []
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS:
        assert p['id'] not in ids, p['id']
        ids.add(p['id'])
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['for_all']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'hook_needed': None},
        }) + '\n')
        for x in p['files']:
            assert os.path.exists(os.path.join('/repo', x)), (p['id'], x)
        if 'na' in p:
            na.append({'property': p['id'], 'reason': p['na']})
        else:
            checks.append({
                'property': p['id'],
                'quick_cmd': './check.sh %s quick' % p['id'],
                'thorough_cmd': './check.sh %s thorough' % p['id'],
                'technique': p['tech'],
                'level': p.get('level', 'proof'),
                'level_note': p['note'],
            })
json.dump({
    'version': 1,
    'setup_cmd': './build.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks are static analyses of /repo\'s current source; nothing of /repo is executed. No hooks are needed.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
