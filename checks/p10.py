"""P10: binning adds up the counts of the dense array."""
import random

from p09 import mc
from sparsecases import random_array, script_case


def run(c):
    rng = random.Random(c.seed)
    mc(c)
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsBin.cfg', 'GenCallsBinThorough.cfg'))

    def dims(k):
        return [rng.choice([1, 2, 2, 3, 4, 4, 6]) for _ in range(k)]

    cases = []
    for s in scripts:
        for _ in range(c.pick(4, 6)):
            cases.append(script_case(rng, s, scan=dims(rng.choice([1, 2, 2])), frame=dims(2)))
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
    # Larger detectors
    cases = [script_case(rng, ['BinFrames', rng.choice(['BinScans', 'BinFramesIn']), 'BinFrames'],
                         frame=rng.choice([[300, 230], [2, 40000], [66000, 2], [40, 30],
                                           [576, 576]]),
                         scan=[2]) for _ in range(c.pick(24, 200))]
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
