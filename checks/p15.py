"""P15: STEM images."""
import random

import imagecases as ic


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'ImagesMC', c.pick('ImagesQuick.cfg', 'ImagesThorough.cfg'))
    small = c.build('small')
    cases = []
    kinds = ic.READERS + ic.SPARSE + ('array', 'h5')
    for k in range(c.pick(900, 9000)):
        case = ic.source(rng, kinds[k % len(kinds)])
        names = ['Stem']
        while len(names) < rng.choice([1, 3, 5]):
            names.append(rng.choice(['Stem', 'Stem', 'Read', 'Reset', 'Change']))
        cases.append(ic.calls(rng, case, names))
    # The results of electron counting, which are modified afterwards
    for k in range(c.pick(120, 1000)):
        case = ic.source(rng, 'counted')
        cases.append(ic.calls(rng, case, ['Stem', 'Change', 'Stem', 'Change', 'Stem'][k % 2:]))
    c.conform('d_images.py', 'TraceImages', cases, small)
    cases = []
    for k in range(c.pick(6, 40)):
        case = ic.source(rng, rng.choice(['py', 'v1', 'array', 'h5']), lin=True)
        cases.append(ic.calls(rng, case, ['Stem']))
    c.conform('d_images.py', 'TraceImages', cases, small)
    full = c.build('full')
    cases = []
    for k in range(c.pick(4, 20)):
        case = ic.source(rng, ['sector', 'v3'][k % 2], size=576, lin=True, most=2)
        cases.append(ic.calls(rng, case, ['Stem']))
    c.conform('d_images.py', 'TraceImages', cases, full)
    scheduled(c, rng, ['Stem'], c.pick(150, 2000))


def scheduled(c, rng, names, n, unique=None):
    lib = c.build('sched')
    cases = []
    for k in range(n):
        case = ic.source(rng, rng.choice(['py', 'v1', 'v3', 'sector']), most=20,
                         unique=unique)
        case['sched'] = [rng.randrange(1 << 32), rng.choice([1000, 3000, 10000]),
                         rng.choice([50, 300])]
        cases.append(ic.calls(rng, case, [rng.choice(names), 'Reset', rng.choice(names)]))
    c.conform('d_images.py', 'TraceImages', cases, lib, preload=c.sched_lib(lib), confirm=6)
