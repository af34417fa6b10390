#!/usr/bin/env python3
"""Planting helper (development aid, not a check).  seed.py SPEC.py [ids...]
SPEC.py defines seeds = [dict(id=, prop=, edits=[(file, old, new)], demo=C++ text, needs=, breaks=, [flags=])].
Each is validated in a scratch copy bind-mounted on /repo in a private namespace: builds, stable tests pass,
demo 0 without and nonzero with the change; then written to seeded/<id>/ and the property's check is tried."""
import sys, os, json, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaviour intact, 1: broken
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
%s "$H/demo.cpp" -I"$PWD/src" -o "$T/demo" || exit 2
timeout 60 "$T/demo" >/dev/null || exit 1
exit 0
'''
def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)
def plant(s):
    d = tempfile.mkdtemp(prefix='sd_', dir='/tmp'); r = d + '/repo'
    out = d + '/seed'; os.makedirs(out)
    try:
        sh('cp -a /repo %s' % r)
        for f, o, n in s['edits']:
            p = r + '/src/estd/' + f; t = open(p).read()
            if t.count(o) != 1: return s, 'edit matches %d times in %s: %r' % (t.count(o), f, o[:60])
            open(p, 'w').write(t.replace(o, n))
        patch = sh('git -C %s diff' % r).stdout
        open(out + '/patch.diff', 'w').write(patch)
        open(out + '/demo.cpp', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(DEMO % ('g++ -std=gnu++17 -w ' + s.get('flags', '-O1')))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        a = sh('cd /repo && bash %s/demo.sh' % out)
        b = sh('cd %s && bash %s/demo.sh' % (r, out))
        if a.returncode: return s, 'demo fails unpatched: ' + a.stdout[-800:] + a.stderr[-1500:]
        if not b.returncode: return s, 'demo passes when patched'
        note = 'demo rc %d' % b.returncode
        if b.returncode == 2: note += ' (does not compile) ' + b.stderr[-600:]
        t = sh("unshare -Urm bash -c 'mount --bind %s /repo && bash /opt/vp/test.sh %s/o.json'" % (r, d))
        o = json.load(open(d + '/o.json')); base = json.load(open('/opt/vp/BASELINE.json'))
        miss = set(base['stable']) - set(o['passed'])
        if miss: return s, 'TESTS FAIL: %s %s' % (sorted(miss)[:5], len(miss)) + (t.stdout[-1500:] if len(miss) > 500 else '')
        dst = V + '/seeded/' + s['id']
        if os.path.isdir(dst): shutil.rmtree(dst)
        os.makedirs(V + '/seeded', exist_ok=True)
        shutil.copytree(out, dst)
        c = sh('python3 %s/check.py %s --repo %s' % (V, s['prop'], r), env=dict(os.environ, VERIF_OUT=d))
        return s, 'KEPT (%s); check rc %d\n%s' % (note, c.returncode, '\n'.join(c.stdout.split('\n')[:8]) + c.stderr[-500:])
    finally: shutil.rmtree(d)
if __name__ == '__main__':
    g = {}; exec(open(sys.argv[1]).read(), g)
    todo = [s for s in g['seeds'] if len(sys.argv) < 3 or s['id'] in sys.argv[2:]]
    with ThreadPoolExecutor(4) as ex:
        for s, r in ex.map(plant, todo): print('== %s: %s' % (s['id'], r))
