"""P07: the electrons of a frame."""
import itertools
import random

from electroncases import (direct_op, exact, exact_pixels, file_case, file_ops, frames_case,
                           noise, options)


def tiny(rng, sizes, values, n):
    """All small frames (n of them)"""
    out = []
    for w, h in sizes:
        fs = list(itertools.product(values, repeat=w * h))
        if len(fs) > n:
            fs = rng.sample(fs, n)
        out.append((w, h, [list(f) for f in fs]))
    return out


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'CountingMC', c.pick('CountingQuick.cfg', 'CountingThorough.cfg'))
    small = c.build('small')
    cases = []
    sizes = [(3, 3), (2, 3), (3, 2), (1, 4), (4, 1), (2, 2), (4, 2), (2, 4), (5, 1), (1, 5)]
    for w, h, fs in tiny(rng, sizes, (0, 1, 2), c.pick(2000, 10**9)):
        plain = {'dark': [], 'gain': [], 'rowDark': False, 'useMean': True, 'blocks': 1,
                 'samples': 1, 'bgSigma': 4, 'xraySigma': 10}
        for k in range(0, len(fs), 250):
            part = fs[k:k + 250]
            case = frames_case(rng, 'py', w, h, part)
            case['ops'] = [{'op': 'Count', 'options': plain, 'scan': case['scan'],
                            'direct': {'bg': bg, 'xray': 100, 'om': 1}} for bg in (0, 1)]
            cases.append(case)
    # Random frames and options, with thresholds that are given
    for k in range(c.pick(700, 8000)):
        api = ('py', 'v1', 'v3')[k % 3]
        w, h = (8, 8) if api == 'v3' else (rng.randint(1, 9), rng.randint(1, 9))
        if w * h == 1:
            continue
        top = rng.choice([3, 9, 40, 200])
        frames = [[rng.randint(1, top) for _ in range(w * h)] for _ in range(rng.randint(1, 5))]
        case = frames_case(rng, api, w, h, frames)
        case['ops'] = [direct_op(rng, frames, w, h, case['scan'], top) for _ in range(4)]
        cases.append(case)
    # The whole range of the pixels
    for k in range(c.pick(100, 1000)):
        w, h = rng.randint(2, 6), rng.randint(2, 6)
        frames = [[rng.choice([0, 1, 65535, 65534, 32767, 32768, 40000, rng.randrange(65536)])
                   for _ in range(w * h)] for _ in range(3)]
        case = frames_case(rng, 'py', w, h, frames)
        for _ in range(3):
            n = w * h
            o = options(rng, n, row_dark=0, gain=.5, dark=0)
            bg = rng.choice([0, 1, 32767, 32768, 65533.5])
            case['ops'].append({'op': 'Count', 'options': o, 'scan': case['scan'], 'direct':
                                {'bg': bg, 'xray': rng.choice([65535, 65535.5, 65536, 1e6]),
                                 'om': 1}})
        cases.append(case)
    # The public function: thresholds that are calculated
    for k in range(c.pick(250, 2500)):
        api = ('py', 'v1', 'v3')[k % 3]
        w, h = (8, 8) if api == 'v3' else (rng.randint(5, 12), rng.randint(5, 12))
        frames = [noise(rng, w * h, 50, rng.choice([4, 8]), 3, 6)
                  for _ in range(rng.randint(1, 6))]
        if k % 4 == 0:
            base = exact(rng, w * h, 5)
            frames = [rng.sample(base, w * h) for _ in frames]
        case = frames_case(rng, api, w, h, frames)
        for _ in range(3):
            case['ops'].append({'op': 'Count', 'options': options(rng, w * h),
                                'scan': case['scan'], 'mayFail': True})
            if k % 4 == 0:
                case['ops'][-1]['options'].update(dark=[], gain=[], rowDark=False, samples=4,
                                                 xraySigma=5)
        cases.append(case)
    # and the readers of sectors
    for k in range(c.pick(250, 2500)):
        api = ('threaded', 'multi-pass', 'sector')[k % 3]
        case = file_case(rng, 'threaded' if api == 'sector' else api, 4, k)
        if api == 'sector':
            case['api'] = api
            # One frame at each position
            seen = {}
            for f in case['files']:
                for r in f['records']:
                    seen.setdefault(r['frame'], len(seen))
            case['scan'] = [max(1, len(seen)), rng.choice([1, 2])]
            for f in case['files']:
                for r in f['records']:
                    r['x'], r['y'] = seen[r['frame']], 0
        case['ops'] = file_ops(rng, case, 3)
        if k % 4 == 0:
            # Pixels that equal the threshold
            exact_pixels(rng, case, 5)
            for op in case['ops']:
                op['options'].update(dark=[], gain=[], rowDark=False, samples=4,
                                     xraySigma=5)
        if api == 'sector':
            for op in case['ops']:
                op['options']['blocks'] = 1
                op['options']['rowDark'] = False
                # Thresholds of lost sectors below the dark reference: not claimed
                op['options']['dark'] = []
        cases.append(case)
    rng.shuffle(cases)
    c.conform('d_electron.py', 'TraceElectronCount', cases, small, confirm=6)
    c.assumptions.append('gains are powers of two, to have exact values; with the row dark '
                         'algorithm, pixels for which the rounding decides may be electrons or not')
