"""P16: radial sums, averages and maxima."""
import random

import imagecases as ic
import p15


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'ImagesMC', c.pick('ImagesQuick.cfg', 'ImagesThorough.cfg'))
    small = c.build('small')
    names = ['RadialSum', 'Average', 'Maximum']
    cases = []
    for k in range(c.pick(700, 8000)):
        case = ic.source(rng, ic.READERS[k % 4])
        todo = [names[k // 4 % 3]]
        while len(todo) < rng.choice([1, 3, 5]):
            todo.append(rng.choice(names + ['Stem', 'Read', 'Reset']))
        cases.append(ic.calls(rng, case, todo))
    c.conform('d_images.py', 'TraceImages', cases, small)
    cases = []
    for k in range(c.pick(4, 30)):
        case = ic.source(rng, rng.choice(['py', 'v1']), lin=True)
        cases.append(ic.calls(rng, case, [names[k % 3]]))
    c.conform('d_images.py', 'TraceImages', cases, small)
    # Many frames at few positions
    cases = []
    for k in range(c.pick(6, 60)):
        scan = rng.choice([[1, 1], [1, 1], [2, 1]])
        dims = [rng.randint(24, 60) for _ in range(2)]
        frames = [{'pos': rng.randrange(scan[0] * scan[1]), 'times': rng.randint(120, 250),
                   'lin': [rng.choice([0, 1, 7]), rng.randrange(1, 50), 60]}
                  for _ in range(rng.choice([1, 1, 2]))]
        n = sum(f['times'] for f in frames)
        b = rng.choice([1, 2, 4, 8])
        cases.append({'kind': ('py', 'v1')[k % 2], 'scan': scan, 'dims': dims, 'frames': frames,
                      'block': b, 'blocks': [min(b, n - i) for i in range(0, n, b)],
                      'ops': [{'op': 'RadialSum', 'center': None, 'scan': scan},
                              {'op': 'Reset'}] * 15})
    c.conform('d_images.py', 'TraceImages', cases, small, confirm=6)
    p15.scheduled(c, rng, ['RadialSum'], c.pick(250, 3000), unique=False)
