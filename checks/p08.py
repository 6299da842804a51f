"""P08: the statistics and the thresholds of counting."""
import random

from electroncases import file_case, file_ops, frames_case, gaussian, noise, options, whole


def stat_options(rng, n, blocks):
    o = options(rng, n, row_dark=.2, gain=.3, blocks=blocks)
    o['samples'] = rng.choice([1, 2, 3, 4])
    if o['gain']:
        o['gain'] = rng.choice([[0] * n, [rng.choice([0, 1]) for _ in range(n)]])
    return o


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'CountingMC', 'CountingQuick.cfg')
    small = c.build('small')
    cases = []
    # The samples are frames of the blocks that are given
    for k in range(c.pick(400, 4000)):
        api = ('py', 'v1', 'v3')[k % 3]
        w, h = (8, 8) if api == 'v3' else (rng.randint(6, 9), rng.randint(6, 9))
        frames = [noise(rng, w * h, 50, rng.choice([4, 8]), rng.choice([0, 0, 2]), 6)
                  for _ in range(rng.randint(1, 6))]
        case = frames_case(rng, api, w, h, frames)
        case['block'] = rng.choice([1, 2, 32])
        nb = {'py': -(-len(frames) // case['block']), 'v1': len(case.get('blocks', [])),
              'v3': len(frames)}[api]
        for _ in range(3):
            o = stat_options(rng, w * h, rng.randint(1, nb))
            case['ops'].append({'op': 'Thresholds', 'options': o, 'mayFail': True,
                                'checkSamples': True})
        cases.append(case)
    # Every frame can be a sample
    for k in range(c.pick(100, 1000)):
        api = ('py', 'v1', 'v3')[k % 3]
        w, h = (8, 8) if api == 'v3' else (rng.randint(6, 8), rng.randint(6, 8))
        frames = [noise(rng, w * h, 50 + 10 * j, rng.choice([4, 8]), 0, 6, 0)
                  for j in rng.sample(range(3), rng.choice([2, 2, 3]))]
        case = frames_case(rng, api, w, h, frames)
        case['block'] = rng.choice([1, 2, 32, 32])
        if api == 'v1':
            case['blocks'] = rng.choice([[1] * len(frames), [len(frames)],
                                         [1, len(frames) - 1]])
        nb = {'py': -(-len(frames) // case['block']), 'v1': len(case.get('blocks', [])),
              'v3': len(frames)}[api]
        o = stat_options(rng, w * h, nb)
        o['samples'] = 100
        case['ops'].append({'op': 'Thresholds', 'options': o, 'mayFail': True,
                            'checkSamples': True, 'each': True})
        cases.append(case)
    # Gaussian noise
    for k in range(c.pick(60, 600)):
        w, h = rng.randint(40, 60), rng.randint(40, 60)
        mean, sd = rng.choice([40, 60, 100]), rng.choice([3, 5, 9])
        o = options(rng, w * h, row_dark=0, gain=0, dark=.7)
        o['darkType'] = rng.choice(['float32', 'uint16', 'fortran', 'strided'])
        if rng.random() < .4:
            o['gain'] = [0] * (w * h)
        px = gaussian(w * h, mean, sd, rng)
        if o['dark']:
            px = [a + b for a, b in zip(px, o['dark'])]
        o['samples'] = rng.choice([1, 3, 10])
        case = frames_case(rng, 'py', w, h, [px])
        case['ops'] = [{'op': 'Thresholds', 'options': o, 'mayFail': False,
                        'gaussian': [mean, sd, 13], 'checkSamples': o['samples'] == 1}]
        cases.append(case)
    # The metadata of the counted data
    for k in range(c.pick(300, 3000)):
        case = file_case(rng, ('threaded', 'multi-pass')[k % 2], 6, k)
        nc = len(whole(case)[0])
        case['ops'] = file_ops(rng, case, 3)
        for op in case['ops']:
            op['options'] = stat_options(rng, case['size'] ** 2, rng.choice(
                [1, 1, 2, max(1, nc)]))
            if case['api'] != 'threaded' and len(whole(case)[1]) > nc:
                op['options']['rowDark'] = False
            op['checkSamples'] = True
        cases.append(case)
    rng.shuffle(cases)
    c.conform('d_electron.py', 'TraceElectronCount', cases, small, confirm=6)
    c.assumptions.append('pixels are not below the dark reference; gains are 1 or 2; Gaussian '
                         'noise is that of the quantiles, its mean and standard deviation are '
                         'found up to 0.2')
