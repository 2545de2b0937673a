#!/usr/bin/env python3
"""Writes known_findings.json: repaired defects (from /repo's fix: commits) and the ones recorded below."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# order of /repo's fix commits -> property
BOUNDS = [('P01', 'reversed cups and caps of composite types'), ('P02', 'pregroup normal form of diagrams with an open domain'),
          ('P03', 'functors commute with the dagger of frames'), ('P05', 'tensor caps take the dtype'),
          ('P06', 'rotating a classical bit'), ('P07', 'import tket circuits without qubits')]
BY_MSG = {}
KNOWN = []
exec(open(os.path.join(HERE, 'tools', 'known.py')).read())
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h\t%s'], text=True, capture_output=True).stdout
out, i = list(KNOWN), 0
for ln in log.splitlines():
    h, s = ln.split('\t', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    if i < len(BOUNDS):
        p = BOUNDS[i][0]
        if BOUNDS[i][1] in s:
            i += 1
    else:
        p = next((v for k, v in BY_MSG.items() if k in s), None)
        assert p, s
    out.append({'property': p, 'status': 'fixed', 'commit': h, 'what': s, 'key': 'fixed:' + h,
                'line': f'fixed: property={p} {h} {s}'})
json.dump({'findings': out}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(out))
