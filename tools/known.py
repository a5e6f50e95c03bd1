#!/usr/bin/env python3
"""known_findings.json: 'findings' from tools/findings.json, 'fixed' from /repo's fix: commits and tools/fixes.txt"""
import json, subprocess, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s', '--reverse'], capture_output=True, text=True).stdout.splitlines()
rows = [l.rstrip('\n').split(' ', 1) for l in open(root + '/tools/fixes.txt') if l.strip()]
fixed = []
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    m = [p for p, pre in rows if s.startswith(pre)]
    assert m, s
    fixed.append(f"fixed: property={m[0]} {h} {s}")
f = root + '/tools/findings.json'
findings = json.load(open(f)) if os.path.exists(f) else []
json.dump({'findings': findings, 'fixed': fixed}, open(root + '/known_findings.json', 'w'), indent=1)
print(len(findings), 'findings', len(fixed), 'fixed')
