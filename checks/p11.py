"""P11: reductions of a sparse array are those of the dense array."""
import random

from p09 import mc
from sparsecases import script_case


def run(c):
    rng = random.Random(c.seed)
    mc(c)
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsReduce.cfg', 'GenCallsReduceThorough.cfg'))
    cases = []
    for s in scripts:
        if not any(n.startswith('Reduce') for n in s):
            continue
        for _ in range(c.pick(4, 5)):
            cases.append(script_case(rng, s))
    for k in range(c.pick(400, 5000)):
        cases.append(script_case(rng, ['Reduce'] * 4))
    # Full pixels, to have a minimum
    for k in range(c.pick(100, 1000)):
        cases.append(script_case(rng, [rng.choice(['ReduceScan', 'ReduceFrame', 'Reduce',
                                                   'BinScans', 'BinFrames'])
                                       for _ in range(4)], density=rng.choice([.95, 1]),
                                 frames=rng.choice([1, 3])))
    # Sums that do not fit in the type of the array, and their means
    for k in range(c.pick(12, 100)):
        n = rng.choice([[17, 17], [300]])
        scan, frame = (n, [1, 2]) if k % 2 else ([2], (n + [1])[:2])
        case = script_case(rng, ['ReduceScan', 'ReduceFrame', 'ReduceScan'], scan=scan, frame=frame,
                           density=rng.choice([.97, 1]), frames=1)
        case['arrays'][0]['dtype'] = rng.choice(['uint8', 'int8'])
        for op in case['ops']:
            if op['op'] == 'Reduce':
                op.update(what='mean', dtype='')
        cases.append(case)
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
    # Larger detectors
    cases = [script_case(rng, ['ReduceScan', 'ReduceFrame', 'ReduceScan', 'ReduceFrame'],
                         frame=rng.choice([[300, 230], [2, 40000], [66000, 2], [576, 576]]),
                         scan=[3]) for _ in range(c.pick(8, 60))]
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
