"""P21: reading and counting with several processes."""
import random

from electroncases import noise, options, whole
from p04 import concrete_ops
from schedules import random_schedule
from sectorcases import concretize, random_layout


def scan_case(rng, most):
    """Several frames at most of a few positions"""
    scan = rng.choice([[1, 1], [2, 1], [1, 3], [2, 2], [3, 2], [4, 2], [3, 3]])
    n = scan[0] * scan[1]
    at = []
    for p in range(n):
        at += [p] * rng.choice([1, 1, 2, 3, 0] if rng.random() < .4 else [1, 2, 3])
    at = at[:most] or [0]
    rng.shuffle(at)
    lay = random_layout(rng, len(at), rng.choice([1, 1, 2, 3]),
                        rng.choice([0, 0, .05, .3]), rng.choice(['sorted', 'near', 'shuffled']))
    if rng.random() < .2:
        lay = lay[:rng.randint(1, len(lay))]
    case = concretize(rng, lay, version=5, truncate=.05, scan=scan,
                      positions=[(p % scan[0], p // scan[0]) for p in at])
    ranks = rng.choice([1, 2, 2, 3, 3, 4, 5])
    case['threads'] = [rng.choice([1, 2, 3]) for _ in range(ranks)]
    case['seed'] = rng.choice([0, rng.randrange(1, 1 << 40)])
    return case


def run(c):
    rng = random.Random(c.seed)
    for x in c.pick(['Quick', 'Live'], ['Live', 'Three', 'Thorough']):
        c.background(c.mc, 'Distributed', f'Distributed{x}.cfg', heap='5g')
    lib = c.build('mpi')
    cases = []
    for k in range(c.pick(240, 2400)):
        case = scan_case(rng, rng.choice([4, 12, 24]))
        case['what'] = 'read'
        names = [rng.choice(['ReadAll'] * 4 + ['LoadAll', 'Load', 'NumFrames', 'NumPerScan',
                                               'Scan']) for _ in range(rng.choice([1, 2, 4]))]
        case['ops'] = concrete_ops(rng, case, names)
        cases.append(case)
    c.conform('d_mpi.py', 'TraceMultiPass', cases, lib, preload=c.sched_lib(lib), confirm=6)
    cases = []
    for k in range(c.pick(240, 2400)):
        case = scan_case(rng, rng.choice([4, 12, 24]))
        n = case['size'] ** 2
        case.update(what='count', source='files', api='multi-pass')
        top = max([r['tag'] for f in case['files'] for r in f['records']] or [0])
        sd = rng.choice([4, 8])
        case['px'] = [noise(rng, n // 4, 50, sd, rng.choice([0, 1, 3]), 6) for _ in range(top)]
        flat = k % 12 == 0
        if flat:
            case['px'] = [[50] * len(p) for p in case['px']]
        case['ops'] = []
        for _ in range(rng.choice([1, 2, 3])):
            o = options(rng, n, gain=.3, blocks=rng.choice([1, 1, 2, 3, 4]))
            o['samples'] = 2
            if len(whole(case)[0]) != len(whole(case)[1]):
                # The rows of lost sectors have no mean
                o['rowDark'] = False
            if o['gain']:
                o['gain'] = rng.choice([[0] * n, [rng.choice([0, 1]) for _ in range(n)]])
            op = {'op': 'Count', 'options': o, 'scan': rng.choice([[0, 0], case['scan']]),
                  's': random_schedule(rng), 'mayFail': True, 'checkSamples': not flat}
            if flat:
                o.update(dark=[], gain=[])
                op['noFit'] = 1
            case['ops'].append(op)
        cases.append(case)
    c.conform('d_mpi.py', 'TraceElectronCount', cases, lib, preload=c.sched_lib(lib), confirm=6)
    c.assumptions.append('the MPI is that of verif/mpi (processes of one machine, messages in '
                         'order, random delays); cereal and BigMPI are replaced as well')
