#!/usr/bin/env python3
"""Regression of the checks themselves: small edits of a scratch copy of the repository, each with the exit code the
named checks must give (1 = the edit breaks the property, 0 = it preserves it).
usage: mut.py [-v] [--all] [file-or-id ...]     edits live in tools/mutants/*.py:  M = [(id, props, expect, [(file, old, new), ...]), ...]
--all: the edits that preserve their property only, against every check (or those named in MUT_CHECKS)"""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')


def load():
    out = []
    d = os.path.join(HERE, 'mutants')
    for f in sorted(os.listdir(d)):
        if f.endswith('.py'):
            ns = {}
            exec(open(os.path.join(d, f)).read(), ns)
            out += [(f[:-3], *m) for m in ns['M']]
    return out


def run(m, verbose):
    f, mid, props, expect, edits = m
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        subprocess.run(['cp', '-a', REPO + '/.', tmp], check=True)
        for file, old, new in edits:
            p = os.path.join(tmp, file)
            s = open(p).read()
            n = 1
            if isinstance(old, tuple):
                old, n = old
            if s.count(old) < 1 or (n and s.count(old) != n):
                return mid, 'EDIT DOES NOT APPLY (%d) %s' % (s.count(old), old[:60]), False
            open(p, 'w').write(s.replace(old, new))
        r = subprocess.run(['gcc', '-fsyntax-only', '-w', '-Inoise_xk/include', '-Inoise_xk/include/karmel', '-Inoise_xk/include/karmel/minimal'] +
                           [os.path.basename(x[0]) for x in edits if x[0].endswith('.c') and x[0].count('/') == 1],
                           cwd=tmp + '/src', capture_output=True, text=True) if any(x[0].startswith('src/') and x[0].count('/') == 1 and x[0].endswith('.c') for x in edits) else None
        if r is not None and r.returncode:
            return mid, 'DOES NOT COMPILE ' + r.stderr[:300], False
        msgs, good = [], True
        for p in props.split():
            ev = tempfile.mkdtemp(prefix='ev-')
            r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), p], capture_output=True, text=True,
                               env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE=ev), cwd=VERIF)
            shutil.rmtree(ev)
            ok = r.returncode == expect
            good &= ok
            first = [l for l in r.stdout.splitlines() if l.startswith('  ')]
            if r.returncode not in (0, 1):
                first = r.stderr.strip().splitlines()
            msgs.append('%s=%d%s%s' % (p, r.returncode, '' if ok else ' (expected %d)' % expect,
                                       (' ' + ' | '.join(x.strip()[:170] for x in first[:6 if verbose else 1])) if first and (verbose or not ok) else ''))
        return mid, '; '.join(msgs), good
    finally:
        shutil.rmtree(tmp)


def main():
    sel = [a for a in sys.argv[1:] if not a.startswith('-')]
    verbose = '-v' in sys.argv
    ms = [m for m in load() if not sel or m[0] in sel or m[1] in sel]
    if '--all' in sys.argv:
        every = os.environ.get('MUT_CHECKS') or ' '.join(sorted(f[:-3].upper() for f in os.listdir(os.path.join(VERIF, 'rules')) if f[0] == 'p' and f[1:-3].isdigit()))
        ms = [(f, mid, every, expect, edits) for f, mid, props, expect, edits in ms if expect == 0]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for mid, msg, good in ex.map(lambda m: run(m, verbose), ms):
            if not good or verbose:
                print(('ok   ' if good else 'FAIL ') + mid + ': ' + msg, flush=True)
            bad += not good
    print('%d of %d as expected' % (len(ms) - bad, len(ms)))
    return bad != 0


if __name__ == '__main__':
    sys.exit(main())
