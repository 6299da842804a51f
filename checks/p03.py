"""P03: the threaded reader delivers every complete frame exactly once."""
import random

from schedules import random_schedule
from sectorcases import concretize, random_layout


def threaded_case(rng, k, frames):
    nf = rng.randint(1, frames)
    lay = random_layout(rng, nf, rng.choice([1, 1, 1, 2, 3]), rng.choice([0, 0, .05, .3]),
                        rng.choice(['sorted', 'sorted', 'near', 'shuffled']))
    case = concretize(rng, lay, version=4 + k % 2, truncate=.1)
    case['threads'] = rng.choice([1, 2, 2, 3, 4, 8, 12])
    return case


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'ThreadedReader', 'ThreadedReaderQuick.cfg')
    if not c.quick:
        c.background(c.mc, 'ThreadedReader', 'ThreadedReaderFrames.cfg')
        c.background(c.mc, 'ThreadedReader', 'ThreadedReaderThorough.cfg', heap='6g')
    lib = c.build('sched')
    cases = []
    for k in range(c.pick(400, 3000)):
        case = threaded_case(rng, k, rng.choice([2, 6, 30]))
        case['runs'] = [random_schedule(rng) for _ in range(rng.choice([3, 6, 10]))]
        cases.append(case)
    c.conform('d_threaded.py', 'TraceThreadedReader', cases, lib, preload=c.sched_lib(lib),
              confirm=6)
    c.assumptions.append('the schedules are those that random delays at function entries, '
                         'mutex operations and reads produce; they are not enumerated')
