#!/usr/bin/env python3
"""Confirms planted changes and writes seeded/<id>/.

usage: seed.py SPEC.py [id ...]     (SPEC.py defines SEEDS = [dict(...)])
Each seed: id, property, edits=[(file, old, new)], demo (C++ text with main),
needs, breaks.  Each is built and tested in a scratch copy bind-mounted over
/repo in a private mount namespace; /repo itself is never touched."""
import json, os, subprocess, sys, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seedwork'
DEMO_SH = '''#!/bin/bash
# exit 0 when the library behaves, nonzero when it does not
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++14 -O1 -I/repo/include "$d/demo.cc" /repo/_build/libwalnut.a -o "$t/demo" || exit 3
timeout 60 "$t/demo"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(s, slot):
    sid = s['id']
    d = '%s/%s' % (W, sid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    sd = d + '/seed'
    os.makedirs(sd)
    scratch = d + '/repo'
    sh('cp -a /repo %s' % scratch)
    try:
        for f, old, new in s['edits']:
            p = scratch + '/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return sid, 'edit does not match once (%d) in %s' % (t.count(old), f)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git -C %s diff' % scratch).stdout
        open(sd + '/patch.diff', 'w').write(diff)
        open(sd + '/demo.cc', 'w').write(s['demo'])
        open(sd + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(sd + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(sd + '/meta.json', 'w'), indent=1)
        r = sh('cd /repo && bash %s/demo.sh' % sd)
        if r.returncode != 0:
            return sid, 'demo fails on the unchanged tree: ' + r.stdout[-2000:]
        inner = 'mount --bind %s /repo && cd /repo && bash /opt/vp/test.sh %s/t.json > %s/log 2>&1; tail -1 %s/log; bash %s/demo.sh > %s/demo.log 2>&1; echo demo=$?' % (scratch, d, d, d, sd, d)
        r = sh("unshare -m sh -c '%s'" % inner)
        out = r.stdout.strip()
        if '694 passed, 0 failed' not in out:
            import re
            fails = ''
            try:
                fails = str(json.load(open(d + '/t.json'))['failed'][:8])
            except Exception:
                pass
            err = sh("grep -m5 'error' %s/log" % d).stdout
            return sid, 'tests: ' + out + ' ' + fails + err
        if 'demo=0' in out or 'demo=3' in out:
            return sid, 'demo does not fail: ' + out + open(d + '/demo.log').read()[-800:]
        dst = VERIF + '/seeded/' + sid
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(sd, dst)
        return sid, 'ok'
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    seeds = [s for s in seeds if not want or s['id'] in want]
    with ThreadPoolExecutor(3) as ex:
        for sid, r in ex.map(lambda s: one(s, 0), seeds):
            print(sid, r, flush=True)
    shutil.rmtree(W, ignore_errors=True)


main()
