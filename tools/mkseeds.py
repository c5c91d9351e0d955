#!/usr/bin/env python3
"""mkseeds.py [ID...]: writes seeded/<ID>/ from tools/seedsrc/<ID>.py (PROP, NEEDS, WHAT, EDITS, DEMO)
tryseeds: mkseeds.py --try ID...: apply, build, test, demo, check; undo."""
import json, os, subprocess, sys, shutil, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SRC = V + '/tools/seedsrc/'

CSH = '''#!/bin/bash
# run in the repository after its build; exit 0 if the property holds in the scenario
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
gcc -g -O1 -w -D_DEFAULT_SOURCE -std=gnu11 -DWITH_SODIUM %s -I"$D" -Isrc -Isrc/noise_xk/include -Isrc/noise_xk/include/karmel -Isrc/noise_xk/include/karmel/minimal -o "$T/demo" "$D/demo.c" src/liboprf.a src/noise_xk/liboprf-noiseXK.a -lsodium || exit 1
cd "$T" && timeout 120 ./demo
'''
PSH = '''#!/bin/bash
# run in the repository after its build; exit 0 if the property holds in the scenario
D=$(cd "$(dirname "$0")" && pwd)
export LD_LIBRARY_PATH=$PWD/_build/prefix/lib PYTHONPATH=$PWD/python PYTHONDONTWRITEBYTECODE=1
timeout 120 /opt/vp/venv/bin/python "$D/demo.py"
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def spec(i):
    g = {}
    exec(open(SRC + i + '.py').read(), g)
    return g


def apply(i):
    g = spec(i)
    for f, old, new in g['EDITS']:
        p = REPO + '/' + f
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d occurrences of %r in %s' % (i, s.count(old), old, f))
        open(p, 'w').write(s.replace(old, new))


def make(i):
    g = spec(i)
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C %s status --porcelain' % REPO).stdout, 'repo not clean'
    apply(i)
    open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % REPO).stdout)
    sh('git -C %s checkout -- .' % REPO)
    if 'PYDEMO' in g:
        open(d + '/demo.py', 'w').write(g['PYDEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(PSH)
    else:
        open(d + '/demo.c', 'w').write(g['DEMO'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write(g.get('SH', CSH % g.get('CFLAGS', '')))
        for h in ('sim.h', 'chan.h'):
            if h in g['DEMO']:
                shutil.copy(V + '/tools/demo/' + h, d + '/' + h)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['WHAT']}, open(d + '/meta.json', 'w'), indent=1)


def passed():
    sh('rm -f /tmp/seedtest.json')
    sh('bash /opt/vp/test.sh /tmp/seedtest.json')
    return open('/tmp/seedtest.json').read()


def trial(ids):
    base = None
    for i in ids:
        d = V + '/seeded/' + i
        meta = json.load(open(d + '/meta.json'))
        r = sh('git -C %s apply %s/patch.diff' % (REPO, d))
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr)
            continue
        try:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                print(i, 'BUILD FAILS', b.stdout[-600:], b.stderr[-600:])
                continue
            t = passed()
            dm = sh('bash %s/demo.sh' % d, cwd=REPO)
            props = [meta['property']] + sys.argv[2:0]
            c = sh('%s/check.py %s' % (V, meta['property']))
            viol = 'VIOLATION property=%s' % meta['property'] in c.stdout
            print(i, meta['property'], 'tests:', summary(t), 'demo:', dm.returncode, 'check:', c.returncode, 'CAUGHT' if viol and c.returncode == 1 else 'MISSED')
            ls = [l.strip() for l in c.stdout.splitlines() if l.startswith('  ')]
            for l in ls[:3]:
                print('     ', l[:200])
            if len(ls) > 3:
                print('      ... %d' % len(ls))
            if c.returncode == 2:
                print(c.stderr[-800:])
            if dm.returncode == 0:
                print('   demo output:', dm.stdout[-300:], dm.stderr[-300:])
        finally:
            sh('git -C %s checkout -- .' % REPO)
    sh('bash /opt/vp/build.sh')
    for i in ids:
        dm = sh('bash %s/seeded/%s/demo.sh' % (V, i), cwd=REPO)
        if dm.returncode:
            print(i, 'demo fails on the unchanged tree:', dm.returncode, dm.stdout[-400:], dm.stderr[-400:])


def summary(t):
    try:
        j = json.loads(t)
        b = json.load(open('/opt/vp/BASELINE.json'))
        return compare(j, b)
    except Exception as e:
        return 'unreadable %s' % e


def compare(j, b):
    def flat(x):
        return x.get('tests', x.get('results', x)) if isinstance(x, dict) else x
    return '%s' % (sorted(k for k in b_stable(b) if not is_pass(j, k)) or 'ok')


def b_stable(b):
    return b.get('stable_passed') or b.get('stable') or []


def is_pass(j, k):
    return k in (j.get('passed') or [])


if __name__ == '__main__':
    a = sys.argv[1:]
    if a and a[0] == '--try':
        ids = a[1:] or sorted(os.listdir(V + '/seeded'))
        sys.argv = sys.argv[:1]
        trial(ids)
    else:
        for i in a or sorted(os.path.basename(x)[:-3] for x in glob.glob(SRC + '*.py')):
            make(i)
