#!/usr/bin/env python3
"""runseeds.py [ID|Cxx ...]: apply each kept bug to /repo in turn, run its property's quick check, undo it."""
import sys, os, subprocess, json, time
V = '/verif'
man = {c['property_id'] if 'property_id' in c else c.get('property'): c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
sel = sys.argv[1:]
assert not subprocess.run(['git', '-C', '/repo', 'status', '--porcelain'], capture_output=True, text=True).stdout.strip()
for sid in sorted(os.listdir(V + '/seeded')):
    d = V + '/seeded/' + sid
    p = json.load(open(d + '/meta.json'))['property']
    if sel and sid not in sel and p not in sel:
        continue
    if p not in man:
        print(sid, p, 'not claimed')
        continue
    t = time.time()
    subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
    try:
        r = subprocess.run(['python3', V + '/check.py', p, '--tier', 'quick'], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    print(sid, p, 'rc', r.returncode, '%.0fs' % (time.time() - t), v[:2] if v else r.stdout[-300:] + r.stderr[-300:], flush=True)
