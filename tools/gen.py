#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props/*.py (each defines PROPS)."""
import json, glob, os, runpy
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(os.path.join(root, 'tools/props/*.py'))):
    props += runpy.run_path(f)['PROPS']
ids = [p['id'] for p in props]
assert len(ids) == len(set(ids))
with open(os.path.join(root, 'properties.jsonl'), 'w') as o:
    for p in props:
        assert len(p['title']) <= 80, p['title']
        rec = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['q']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]},
        }
        o.write(json.dumps(rec) + '\n')
checks, na = [], []
for p in props:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'], 'quick_cmd': f"bash check.sh {p['id']}",
        'thorough_cmd': f"VERIF_TIER=thorough bash check.sh {p['id']}",
        'technique': p.get('technique', 'runtime monitoring: randomized hostile workloads on the real code, online reference oracle'),
        'level': 'exploration',
        'level_note': p['note'],
    })
m = {'version': 1, 'setup_cmd': 'bash check.sh --build',
     'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the monitors observe public interfaces, panics, overflow checks and debug assertions', 'source_commits': []},
     'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(props), 'properties', len(checks), 'checks')
