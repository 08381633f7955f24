#!/usr/bin/env python3
"""writes /verif/MANIFEST.json"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'scan': 'Seeded search over simulated whole scans: real library code, real futures-cpupool threads, on a simulated kernel that decides every schedule, listing order, short read, error and concurrent change. Assurance is that of the runs made (see the evidence file), not a proof. Trusts the reference model, the simulated kernel, and sequentially consistent interleaving (at system calls, futexes, allocations and, in a fifth of the threaded runs, between basic blocks of the crate and its thread pool).',
 'read': 'Seeded search over simulated streams: real parser, iterator, merger, hash extraction, stream hashing and emitter code over readers and writers that fragment, fail, end early and interrupt by seed, judged by an independent encoder and model. Assurance is that of the runs made, not a proof.',
 'cli': 'Seeded search over simulated runs of the real command in a process of its own, every system call on the tree, the output and standard error simulated, faults and kill points by seed. Assurance is that of the runs made, not a proof. A kill keeps what write calls accepted (page cache), power loss is not modelled.',
}
checks = []
for i in list(range(1, 21)) + [23, 24]:
    p = 'C%02d' % i
    g = 'scan' if i <= 9 or i >= 23 else 'cli' if i >= 19 else 'read'
    checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                   'technique': 'deterministic simulation with fault injection, seeded search', 'level': 'exploration', 'level_note': NOTE[g]})
m = {'version': 1, 'setup_cmd': 'python3 check.py build', 'checks': checks,
     'not_applicable': [
         {'property': 'C21', 'reason': 'A comparison of two values: no schedule, clock, I/O, fault or history it could depend on, so there is nothing to simulate.'},
         {'property': 'C22', 'reason': 'A pure conversion between a name and an enum value: no schedule, clock, I/O, fault or history it could depend on, so there is nothing to simulate.'}],
     'notes': 'No hooks in /repo: the seams are the io traits and the libc symbols, which the simulator defines (linked in, or LD_PRELOAD for the command). Replay: python3 check.py replay FILE.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
