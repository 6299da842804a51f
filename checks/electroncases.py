"""Cases of electron counting (see drivers/d_electron.py)."""
from statistics import NormalDist

from p04 import multipass_case
from p03 import threaded_case
from schedules import random_schedule


def noise(rng, n, mean, sd, hits, lowest=0, xray=.2):
    """Pixels: Gaussian noise, electrons, sometimes an x-ray"""
    px = [max(lowest, round(rng.gauss(mean, sd))) for _ in range(n)]
    for _ in range(hits):
        px[rng.randrange(n)] = rng.choice([round(mean + 6 * sd + rng.randrange(60)),
                                           round(mean + 8 * sd)])
    if rng.random() < xray:
        px[rng.randrange(n)] = rng.choice([900, 1000])
    return px


def options(rng, n, row_dark=.3, gain=.3, dark=.5, blocks=1):
    # The dark reference is lower than all of the pixels (see row dark in DESIGN.md)
    d = rng.choice([0, 1, 5])
    rd = rng.random() < row_dark
    o = {'dark': [rng.randint(0, d) for _ in range(n)] if rng.random() < dark else [],
         'darkType': rng.choice(['float32', 'float64', 'uint16', 'int64', 'fortran', 'strided',
                                 'average']),
         'gain': ([rng.choice([0, 0, -1, 1]) for _ in range(n)] if rng.random() < gain else []),
         'gainType': rng.choice(['float64', 'float32', 'fortran']),
         'rowDark': rd, 'useMean': rng.random() < .5,
         'blocks': blocks, 'samples': rng.choice([10, 20, 40]),
         'bgSigma': rng.choice([3, 4, 5]), 'xraySigma': rng.choice([5, 10])}
    if o['dark'] == [0] * n:
        o['darkType'] = 'float32'
    return o


def file_case(rng, api, frames, k):
    """Sector files with noise, and counts with the readers of them"""
    if api == 'threaded':
        case = threaded_case(rng, k, frames)
    else:
        case = multipass_case(rng, frames, (0, .05, .3))
    case['scan'] = [min(x, 300) for x in case['scan']]
    for f in case['files']:
        for r in f['records']:
            r['x'] %= case['scan'][0]
            r['y'] %= case['scan'][1]
    if case['scan'][0] * case['scan'][1] > 2000:
        case['scan'] = [case['scan'][0], 4]
        for f in case['files']:
            for r in f['records']:
                r['y'] %= 4
    case['source'], case['api'] = 'files', api
    n = case['size'] ** 2 // 4
    top = max([r['tag'] for f in case['files'] for r in f['records']] or [0])
    sd = rng.choice([4, 8])
    case['px'] = [noise(rng, n, 50, sd, rng.choice([0, 1, 3]), 6) for _ in range(top)]
    return case


def exact(rng, n, k):
    """n pixels of which 4 samples have an integer mean m and deviation s, one of them is
    m + k * s"""
    while True:
        s, m = rng.choice([4, 6, 8]), rng.choice([50, 60, 70])
        left = s * s * (4 * n - 1) // 4 - (k * s) ** 2
        sd = (left / (n - 1)) ** .5
        d = [round(rng.gauss(-k * s / (n - 1), sd)) for _ in range(n - 1)]
        for _ in range(4000):
            t = -k * s - sum(d)
            q = left - sum(x * x for x in d)
            if t:
                d[rng.randrange(n - 1)] += 1 if t > 0 else -1
            elif q:
                i, j = rng.sample(range(n - 1), 2)
                if abs(q - 2 * (d[i] - d[j]) - 2) < abs(q) or rng.random() < .05:
                    d[i] += 1
                    d[j] -= 1
            elif max(d) < k * s and min(d) > -m:
                return [m + x for x in d] + [m + k * s]
            else:
                break


def exact_pixels(rng, case, k):
    """All of the frames have the pixels of exact(), in some order"""
    base = exact(rng, case['size'] ** 2, k)
    n = len(base) // 4
    frames = {}
    for f in case['files']:
        for r in f['records']:
            fr = frames.setdefault(r['frame'], rng.sample(base, len(base)))
            case['px'][r['tag'] - 1] = fr[f['sector'] * n:(f['sector'] + 1) * n]


def whole(case):
    """The numbers of the complete frames"""
    got = {}
    for f in case['files']:
        size = 16 + case['size'] ** 2 // 2
        for k, r in enumerate(f['records']):
            if (k + 1) * size <= f['bytes']:
                got.setdefault(r['frame'], set()).add(f['sector'])
    return [f for f, s in got.items() if len(s) == 4], list(got)


def file_ops(rng, case, n):
    """Counts with the numbers of sample blocks around the number of frames"""
    complete, all_ = whole(case)
    nc = len(complete)
    ops = []
    for _ in range(n):
        blocks = rng.choice([1, 1, 2, 3, max(1, nc - 1), max(1, nc), nc + 1])
        o = options(rng, case['size'] ** 2, blocks=blocks)
        if case['api'] != 'threaded' and len(all_) > nc:
            # The rows of lost sectors have no mean
            o['rowDark'] = False
        ops.append({'op': 'Count', 'options': o, 'scan': rng.choice([[0, 0], case['scan']]),
                    's': random_schedule(rng), 'mayFail': True})
    return ops


def direct_op(rng, frames, w, h, scan, top):
    """Thresholds that are given, some of them right at the values"""
    n = w * h
    o = options(rng, n, row_dark=.4, gain=.4)
    if o['rowDark']:
        o['dark'] = [0] * n if o['dark'] else []
    elif o['dark']:
        o['dark'] = [rng.choice([0, 1, rng.randint(0, top // 2)]) for _ in range(n)]
    a, b = sorted(rng.choice(rng.choice(frames)) for _ in range(2))
    bg = rng.choice([a, a + .5, a - 1, a / 2, .25, 0, a - 1e-9])
    xray = rng.choice([b, b + .5, b + 1, 4 * top, 2 * top, b + 1e-9])
    if o['gain']:
        o['gain'] = [rng.choice([0, 1, 2, -1, -2, -4]) for _ in range(n)]
        if o['rowDark']:
            o['gain'] = [rng.choice([0, 1, 2, -1]) for _ in range(n)]
    om = rng.choice([1, 2, 3, top, rng.randint(1, 200), rng.randint(1, 800) / 4])
    return {'op': 'Count', 'options': o, 'scan': scan,
            'direct': {'bg': max(0, bg), 'xray': max(xray, bg, .5), 'om': om}}


def frames_case(rng, api, w, h, frames, scan=None):
    """Frames at different positions"""
    k = len(frames)
    if scan is None:
        scan = rng.choice([[k, 1], [1, k], [k + 2, 2], [(k + 1) // 2, 2]])
    numbers = list(range(scan[0] * scan[1]))
    if rng.random() < .5:
        rng.shuffle(numbers)
    numbers = numbers[:k]
    case = {'source': 'frames', 'api': api, 'w': w, 'h': h, 'scan': scan, 'frames': frames,
            'numbers': numbers, 'block': rng.choice([1, 3, 32]), 'ops': []}
    if api == 'v1':
        blocks, left = [], k
        while left:
            x = rng.randint(1, min(left, 6))
            blocks.append(x)
            left -= x
        case['blocks'] = blocks
    return case


def gaussian(n, mean, sd, rng):
    """n integers, distributed as evenly as possible"""
    d = NormalDist(mean, sd)
    px = [max(0, round(d.inv_cdf((k + .5) / n))) for k in range(n)]
    rng.shuffle(px)
    return px
