"""P12: reshaping keeps the elements, and operations do not change other arrays."""
import random

from p09 import mc
from sparsecases import Builder, random_array


def run(c):
    rng = random.Random(c.seed)
    mc(c)
    small = c.build('small')
    scripts = c.gen('GenCalls', c.pick('GenCallsShape.cfg', 'GenCallsShapeThorough.cfg'))
    cases = []
    for s in scripts:
        for _ in range(c.pick(2, 3)):
            b = Builder(rng, [random_array(rng) for _ in range(rng.choice([1, 1, 2]))])
            for n in s:
                b.do(n)
                # All of the arrays are observed after each operation
                b.ops.append({'op': 'Observe'})
            cases.append(b.case(observe=False))
    c.conform('d_sparse.py', 'TraceSparseArray', cases, small)
