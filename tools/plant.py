#!/usr/bin/env python3
"""Development tool: confirm a planted bug of /verif/seeded in /repo's working tree and undo it.

  plant.py ID [--no-check] [--secs N]
The demo must pass on the clean tree and fail with the patch; the build and the stable tests must pass with it.
"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def main():
    i = sys.argv[1]
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    if sh('git -C /repo status --porcelain --untracked-files=no').stdout.strip():
        print('the working tree is not clean')
        return 2
    ok = True
    r = sh('bash /opt/vp/build.sh')
    if r.returncode:
        print(r.stdout[-2000:])
        return 2
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
    print('demo clean: %d' % r.returncode, '' if r.returncode == 0 else '  <-- BAD\n' + r.stdout[-1500:])
    ok &= r.returncode == 0
    r = sh('git -C /repo apply %s/patch.diff' % d)
    if r.returncode:
        print('patch does not apply', r.stdout)
        return 2
    try:
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print('build fails with the patch', r.stdout[-2000:])
            return 1
        r = sh('timeout 300 bash %s/demo.sh' % d, cwd=R)
        print('demo patched: %d' % r.returncode, r.stdout[-600:].strip(), '' if r.returncode else '  <-- BAD')
        ok &= r.returncode != 0
        if '--no-tests' not in sys.argv:
            sh('bash /opt/vp/test.sh /tmp/plant-out.json')
            b = json.load(open('/opt/vp/BASELINE.json'))
            p = set(json.load(open('/tmp/plant-out.json'))['passed'])
            miss = [t for t in b['stable'] if t not in p]
            print('tests missing:', miss[:5], '' if not miss else '  <-- BAD')
            ok &= not miss
        if '--no-check' not in sys.argv:
            env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
            r = sh('python3 %s/check.py %s' % (V, prop), env=env, cwd=V)
            l = [x for x in r.stdout.splitlines() if x.startswith(('VIOLATION', prop + '/'))]
            print('check %s: rc %d' % (prop, r.returncode), 'CAUGHT' if r.returncode == 1 and l else 'MISSED')
            for x in l[:2]:
                print('   ', x[:240])
            if r.returncode not in (0, 1):
                print(r.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
    print(i, 'OK' if ok else 'NOT OK')
    return 0


sys.exit(main())
