"""P20: pipelines."""
import random


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'PipelinesMC', 'PipelinesQuick.cfg')
    small = c.build('small')
    cases = []
    for _ in range(c.pick(300, 3000)):
        ops, n = [], 0
        for _ in range(rng.choice([5, 15])):
            k = rng.random()
            if not n or k < .2:
                names = rng.sample(['radius', 'center', 'width', 'n', 'default', 'name'],
                                   rng.randrange(5))
                ops.append(['declare', [[x, rng.randrange(-4, 30)] for x in names],
                            {'name': 'p%d' % n, 'description': rng.choice(['', 'text']),
                             'input': rng.choice(['image', 'frame']),
                             'output': rng.choice(['image', 'frame']),
                             'aggregation': rng.choice(['sum', 'max', 'min', 'mean', 'median'])},
                            rng.random() < .7])
                n += 1
            elif k < .4:
                ops.append(['describe', rng.randint(1, n)])
            else:
                given = rng.sample(['radius', 'center', 'width', 'n', 'default', 'name', 'extra'],
                                   rng.randrange(6))
                ops.append(['call', rng.randint(1, n), [[x, rng.randrange(-4, 30)]
                                                        for x in given],
                            rng.randrange(1000), rng.randrange(1000)])
        cases.append({'ops': ops})
    c.conform('d_pipelines.py', 'TracePipelines', cases, small)
