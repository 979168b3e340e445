#!/usr/bin/env python3
"""Run the simulation check of one property.

  check.py PROPERTY              quick or thorough search (VERIF_TIER, VERIF_SEED)
  check.py --replay PLAN PROP    replay a plan file; exit 1 if it violates PROP
  check.py --build               only build the simulator

Exit 0: no violation found. Exit 1: a line "VIOLATION property=.. replay=..".
Anything else is an error of the check.
"""
import os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
# seconds of search, and the least number of runs on a slow machine
QUICK = {'default': (25, 2000)}
THOROUGH = 600


def build():
    r = subprocess.run([sys.executable, V + '/sim/build.py', '--repo', REPO, '--out', V + '/build'], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        sys.stderr.write('check.py: the simulator does not build from %s\n' % REPO)
        sys.exit(2)
    return r.stdout.split()[-1]


def main():
    a = sys.argv[1:]
    if not a:
        sys.stderr.write(__doc__)
        return 2
    exe = build()
    if a[0] == '--build':
        print(exe)
        return 0
    known = V + '/known_findings.txt'
    if a[0] == '--replay':
        return subprocess.run([exe, 'replay', a[1], a[2], known]).returncode
    prop = a[0]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    secs, minruns = QUICK.get(prop, QUICK['default'])
    if tier == 'thorough':
        secs, minruns = THOROUGH, 0
    secs = float(os.environ.get('VERIF_SECS', secs))
    jobs = str(min(16, max(2, os.cpu_count() or 8)))
    os.makedirs(V + '/evidence', exist_ok=True)
    os.makedirs(V + '/build/replays', exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='simcheck-')
    try:
        r = subprocess.run([exe, 'check', '--prop', prop, '--tier', tier, '--seed', seed, '--secs', str(secs), '--minruns', str(minruns),
                            '--runs', '100000000', '--jobs', jobs, '--tmp', tmp, '--replays', V + '/build/replays',
                            '--evidence', '%s/evidence/%s.json' % (V, prop), '--known', known])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == '__main__':
    sys.exit(main())
