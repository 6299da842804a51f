"""P18: histograms of STEM images."""
import random

import imagecases as ic


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'ImagesMC', c.pick('ImagesQuick.cfg', 'ImagesThorough.cfg'))
    small = c.build('small')
    cases = []
    for k in range(c.pick(3000, 30000)):
        case = ic.source(rng, ic.READERS[k % 4], unique=True)
        todo = ['Histogram']
        while len(todo) < rng.choice([1, 3, 5]):
            todo.append(rng.choice(['Histogram', 'Histogram', 'Read', 'Reset', 'Stem']))
        cases.append(ic.calls(rng, case, todo))
    c.conform('d_images.py', 'TraceImages', cases, small)
