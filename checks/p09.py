"""P09: slicing a sparse array means slicing the dense array."""
import random

from sparsecases import script_case


def mc(c):
    for x in c.pick(['Quick', 'Bins'], ['Quick', 'Bins', 'Chain', 'Frames', 'Wide']):
        c.background(c.mc, 'SparseArrayMC', f'SparseArray{x}.cfg')


def run(c):
    rng = random.Random(c.seed)
    mc(c)
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsSlice.cfg', 'GenCallsSliceThorough.cfg'))
    cases = []
    for s in scripts:
        if not any(n.startswith('Slice') for n in s):
            continue
        for _ in range(c.pick(5, 5)):
            cases.append(script_case(rng, s))
    for k in range(c.pick(800, 8000)):
        cases.append(script_case(rng, [rng.choice(['Slice', 'Slice', 'Slice', 'SliceScan', 'SliceFrame', 'Set'])
                                       for _ in range(6)]))
    # Slices are copies
    for k in range(c.pick(200, 2000)):
        cases.append(script_case(rng, ['Slice', 'Poke', rng.choice(['Slice', 'SliceScan', 'SliceFrame',
                                                                    'Poke']), 'Poke']))
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
    # Larger detectors
    cases = [script_case(rng, ['SliceFrame', 'SliceScan', 'Slice'],
                         frame=rng.choice([[300, 230], [2, 40000], [66000, 1], [40, 30]]),
                         scan=[2]) for _ in range(c.pick(8, 60))]
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
