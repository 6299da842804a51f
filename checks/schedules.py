"""Random perturbations of the schedule (see harness/vfsched.cpp)."""


def random_schedule(rng):
    """[seed, probability out of 65536, largest delay in microseconds]"""
    p, us = rng.choice([(0, 0), (600, 30), (3000, 5), (150, 200), (40, 1000), (8, 4000),
                        (10000, 1)])
    return [rng.randrange(1, 1 << 62), p, us]
