"""P25: arrays that the library returned keep their contents."""
import random

import imagecases as ic


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'OwnershipMC', c.pick('OwnershipQuick.cfg', 'OwnershipThorough.cfg'))
    small = c.build('small')
    kinds = ic.READERS + ic.READERS + ('sparsearray', 'counted', 'array', 'tuple', 'h5')
    cases = []
    for k in range(c.pick(260, 4000)):
        cases.append({'seed': rng.randrange(1 << 30), 'steps': rng.choice([4, 8, 14]),
                      'source': ic.source(rng, kinds[k % len(kinds)], unique=True, most=4)})
    c.conform('d_owners.py', 'TraceOwnership', cases, small)
