#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed properties
import json, sys
V = '/verif/'
CLAIMED = 'C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22'.split()
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
pure = 'No schedule, clock, fault, I/O or interleaving in it: a pure function of its input text. Deterministic simulation has nothing to vary; generating inputs alone would be a different technique.'
NA = {'N01': pure, 'N02': pure, 'N03': pure, 'N04': pure, 'N05': pure}
checks = []
for p in props:
    if p['id'] in CLAIMED:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py ' + p['id'],
            'thorough_cmd': 'python3 check.py ' + p['id'],
            'technique': 'deterministic simulation with fault injection (seeded search over generated projects, histories, schedules and faults; muon\'s real code on a simulated OS; reference-model oracle)',
            'level': 'exploration',
            'level_note': 'Sampling, not proof: no violation in the runs of the budget. Trusts the simulated kernel, libc and tools (sim/os.cc, libc.cc, progs.cc) and the reference models of the scenario; page cache survives a kill, no power loss. See DESIGN.md.',
        })
    elif p['id'] not in NA:
        NA[p['id']] = 'Not yet checked: the scenario for it is being built.'
m = {'version': 1, 'setup_cmd': 'python3 check.py --build',
     'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': NA[p['id']]} for p in props if p['id'] in NA],
     'notes': 'No hooks in /repo: every seam is at the libc boundary (objcopy redirects muon\'s libc references to the simulator). Commits in /repo are fixes only.'}
json.dump(m, open(V + 'MANIFEST.json', 'w'), indent=1)
open(V + 'MANIFEST.json', 'a').write('\n')
