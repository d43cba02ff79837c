#!/usr/bin/env python3
"""detect.py [id ...]: runs the property's check against each planted change in
a copy of /repo mounted over /repo in a private namespace (development aid)."""
import json, os, subprocess, sys, shutil
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(VERIF + '/seeded'))
for i in ids:
    d = VERIF + '/seeded/' + i
    p = json.load(open(d + '/meta.json'))['property']
    s = '/tmp/detect/' + i
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(s)
    subprocess.run('cp -a /repo %s/repo && git -C %s/repo apply %s/patch.diff && cp -a %s %s/verif' % (s, s, d, VERIF, s), shell=True, check=True)
    r = subprocess.run("unshare -m sh -c 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && timeout 900 python3-vt check.py %s'" % (s, s, p), shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    w = [l for l in r.stdout.splitlines() if 'wall' in l]
    how = 'MISSED'
    if v:
        how = ('obligation only, ' if v[0].endswith('found') else 'input, ') + v[0].split('replay=')[1].split()[0].split('/')[-1].split('.')[1]
    fn = VERIF + '/tools/detected.txt'
    old = [l for l in open(fn) if l.split()[0] != i] if os.path.exists(fn) else []
    open(fn, 'w').write(''.join(sorted(old + ['%s %s\n' % (i, how)])))
    print(i, p, 'rc', r.returncode, 'HARD' if v and not v[0].endswith('found') else 'SOFT' if v else 'MISSED', v[:1], w[-1:][0][-40:] if w else r.stdout[-300:], flush=True)
    shutil.rmtree(s, ignore_errors=True)
