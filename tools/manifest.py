#!/usr/bin/env python3
"""Writes MANIFEST.json from the property modules that exist."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

TECH = {
    'C01': 'deterministic simulation: faults in symbolic solving (cut-offs, inconclusive and failing solvers) against a reference model',
    'C02': 'deterministic simulation: simulated clock, interval timer and signal handlers with interrupts inside solving',
    'C03': 'deterministic simulation: seeded preemptive scheduling of caller threads against solo twins',
    'C04': 'deterministic simulation: seeded interrupts and allocation failures at trace points against forked twins',
    'C05': 'deterministic simulation: seeded cache histories with simulated addresses, collisions and collection against cache-free twins',
    'C06': 'deterministic simulation: merge-table histories under colliding hashes against unmerged twins and a reference model',
    'C07': 'deterministic simulation: scripted randomness sources and interleaved samplers against isolated twins',
    'C08': 'deterministic simulation: adversarial streams of random numbers against a reference model',
    'C09': 'deterministic simulation: seeded batches and splits checked statistically against exact probabilities',
    'C10': 'deterministic simulation: seeded statement histories with failed and aborted statements against a reference model',
    'C11': 'deterministic simulation: crash and restart with only saved JSON surviving, aborted saves, against the original',
    'C12': 'deterministic simulation: operation histories with caller mutations and failures, re-checking every earlier value',
    'C13': 'deterministic simulation: notebook cell histories with failing and interrupted cells against a reference session',
    'C14': 'deterministic simulation: rendering under adversarial clocks against the structure of the model',
    'C15': 'deterministic simulation: seeded set iteration orders and hash seeds, digests compared between processes',
    'C16': 'deterministic simulation: evidence arrival schedules against a reference posterior',
    'C17': 'deterministic simulation: I/O faults and interrupts while rendering against a file-system oracle',
    'C18': 'deterministic simulation: stalled solvers under a simulated clock and alarm with bounded progress',
}
LEVEL_NOTE = ('Seeded search over simulated executions; every run is a function of its seed, '
    'violations are minimised and replayed identically before they are reported.')

PURE = 'A pure function of its input: no schedule, clock, fault, randomness or history for it to depend on, so simulation has nothing to vary.'
NA = {
    'C19': PURE, 'C20': PURE + ' (Faults of the solver behind it are C01 and C18.)',
    'C21': PURE + ' (Set iteration orders are C15.)', 'C22': PURE, 'C23': PURE + ' (Caches are C05.)',
    'C24': PURE, 'C25': PURE + ' (Rejection after failures and aborts is C04, C10, C12 and C16.)',
}

def main():
    checks = []
    na = dict(NA)
    for p in sorted(TECH):
        if not os.path.exists(os.path.join(VERIF, 'dst', 'props', p.lower() + '.py')):
            na[p] = 'The check is not built yet.'
            continue
        checks.append({
            'property': p,
            'quick_cmd': 'python3 dst/main.py check %s --tier quick' % p,
            'thorough_cmd': 'python3 dst/main.py check %s --tier thorough' % p,
            'technique': TECH[p],
            'level': 'exploration',
            'level_note': LEVEL_NOTE,
        })
    data = {
        'version': 1,
        'setup_cmd': 'true',
        'checks': checks,
        'not_applicable': [{'property': p, 'reason': na[p]} for p in sorted(na)],
    }
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(data, f, indent=1)
        f.write('\n')

main()
