"""P06: counting while reading: every frame once, and an end."""
import random

from electroncases import file_case, file_ops, whole


def run(c):
    rng = random.Random(c.seed)
    for x in c.pick(['Quick'], ['Thorough', 'Live']):
        c.background(c.mc, 'ElectronCount', f'ElectronCount{x}.cfg', heap='5g')
    lib = c.build('sched')
    cases = []
    for k in range(c.pick(500, 4000)):
        case = file_case(rng, ('threaded', 'multi-pass')[k % 2], rng.choice([1, 3, 8, 20]), k)
        case['ops'] = file_ops(rng, case, rng.choice([2, 3, 5]))
        nc = len(whole(case)[0])
        flat = k % 7 == 0
        if flat:
            # The thresholds of constant frames cannot be calculated
            case['px'] = [[50] * len(p) for p in case['px']]
        for op in case['ops']:
            o = op['options']
            o['samples'] = 5
            if rng.random() < .5:
                o['blocks'] = rng.choice([max(1, nc - 1), max(1, nc), nc + 1])
            if flat:
                o['dark'] = []
                o['gain'] = []
                op['noFit'] = 1
            if rng.random() < .7:
                o['rowDark'] = False
        cases.append(case)
    c.conform('d_electron.py', 'TraceElectronCount', cases, lib, preload=c.sched_lib(lib),
              confirm=6)
    c.assumptions.append('the schedules are those that random delays at function entries, '
                         'mutex operations and reads produce; they are not enumerated')
