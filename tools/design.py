#!/usr/bin/env python3
import json, glob, os, runpy, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = {p['id']: p for p in json.loads(subprocess.check_output([root + '/target/par/debug/vh', 'describe']))}
out = open(root + '/tools/design/head.md').read()
for f in sorted(glob.glob(root + '/tools/props/*.py')):
    for p in runpy.run_path(f)['PROPS']:
        h = d[p['id']]
        out += f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n"
        out += f"* **Cases and observation**: {h['rule']}\n"
        out += f"* **Oracle**: {p['note']}\n"
        w = ', '.join(f"`{a}` {b} / {c}" for a, b, c in h['workloads'])
        out += f"* **Bounds** (cases, quick / thorough): {w}\n"
        if h['assumptions']:
            out += f"* **Not judged, or tolerated**: {'; '.join(h['assumptions'])}\n"
        out += f"* **Beyond the tests**: {p['why']}\n"
        out += f"* **Code**: {', '.join(p['files'])}\n\n"
out += open(root + '/tools/design/tail.md').read()
fixes = [l.rstrip('\n').split(' ', 1) for l in open(root + '/tools/fixes.txt') if l.strip()]
out += '\n### Repaired defects\n\n' + ''.join(f'* {a}: {b}\n' for a, b in fixes)
out += '\n## 7. Planted bugs (seeded/), and the check that catches each\n\n'
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    out += f"* {os.path.basename(os.path.dirname(f))} ({m['property']} catches it): {m['what_it_breaks']} Needs: {m['needs']}\n"
open(root + '/DESIGN.md', 'w').write(out)
print(len(out))
