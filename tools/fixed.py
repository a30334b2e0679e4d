"""Refresh the "fixed" list of known_findings.json from tools/fixed_map.txt
(lines: '<property> <start of the fix commit's subject>')."""
import json
import os
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h\t%s'], capture_output=True, text=True).stdout
commits = [l.split('\t', 1) for l in log.splitlines() if '\tfix: ' in l]
fixed, used = [], set()
for line in open(os.path.join(ROOT, 'tools', 'fixed_map.txt')):
    if not line.strip():
        continue
    pid, start = line.strip().split(' ', 1)
    m = [c for c in commits if c[1][5:].startswith(start)]
    assert len(m) == 1, (line, m)
    used.add(m[0][0])
    fixed.append('fixed: property=%s %s %s' % (pid, m[0][0], m[0][1][5:]))
for c in commits:
    if c[0] not in used:
        print('not in fixed_map.txt:', c)
f = os.path.join(ROOT, 'known_findings.json')
d = json.load(open(f)) if os.path.exists(f) else dict(findings=[])
d['fixed'] = fixed
json.dump(d, open(f, 'w'), indent=1)
