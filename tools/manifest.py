#!/usr/bin/env python3
"""Writes MANIFEST.json from run/checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/run')
import checks
props = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for p in props:
    if p in checks.CHECKS:
        c = checks.CHECKS[p]
        m['checks'].append({
            'property': p,
            'quick_cmd': 'python3 run/check.py %s quick' % p,
            'thorough_cmd': 'python3 run/check.py %s thorough' % p,
            'technique': c.get('technique', 'TLA+ specification model checked with TLC; traces of the real code validated against it by TLC'),
            'level': c.get('level', 'model_checking'),
            'level_note': c['note'],
        })
    else:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
