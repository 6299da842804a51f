"""P22: phase reconstruction."""
import random


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'PhaseMC', f'Phase{c.pick("Quick", "Thorough")}.cfg')
    small = c.build('small')
    cases = []
    for k in range(c.pick(300, 6000)):
        ops = []
        for _ in range(3):
            m, n = rng.choice([1, 2, 4, 4, 4]), rng.choice([1, 2, 4, 4, 4])
            top = rng.choice([1, 5, 15])
            com = [[[rng.randint(-top, top) for _ in range(n)] for _ in range(m)]
                   for _ in range(2)]
            if rng.random() < .2:  # one row or column is different
                com[rng.randrange(2)] = [[3] * n for _ in range(m)]
            ops.append({'com': com, 'tiles': [rng.choice([1, 1, 2, 3, 5]),
                                              rng.choice([1, 1, 2, 3, 7])],
                        'turns': rng.choice([0, 0, 1, 2, 3]), 'winding': rng.randrange(2),
                        'flip': rng.random() < .4, 'reg': rng.choice([0, 0, 0, 1, 2]),
                        'dtype': rng.choice(['float64', 'float64', 'int64', 'int16']),
                        'order': rng.choice(['C', 'C', 'F', 'strided', 'subclass']),
                        'default': rng.random() < .8})
            if not any(com[0][0] + com[1][0]) and rng.random() < .5:
                ops[-1]['com'][0][0][0] = 1
        cases.append({'ops': ops})
    c.conform('d_phase.py', 'TracePhase', cases, small)
