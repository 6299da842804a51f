"""P05: random access to frames with the multi pass reader."""
import random

from p04 import concrete_ops, multipass_case


def random_selector(rng, n, kind=None):
    """A selector (see spec/PySlice.tla) for about n elements"""
    kind = kind or rng.choice(['all', 'int', 'slice', 'list', 'mask'])

    def num(lo, hi):
        return rng.randint(lo, hi)

    if kind == 'all':
        return {'kind': 'all'}
    if kind == 'int':
        return {'kind': 'int', 'v': num(-n - 1, n) if rng.random() < .4 else
                (num(0, n - 1) if n else 0)}
    if kind == 'slice':
        return {'kind': 'slice', 'v': [
            [] if rng.random() < .3 else [num(-n - 2, n + 2)],
            [] if rng.random() < .3 else [num(-n - 2, n + 2)],
            [] if rng.random() < .5 else [rng.choice([1, 2, 3, -1, -2, -3])]]}
    if kind == 'list':
        bad = rng.random() < .2
        lo, hi = (-n - 1, n) if bad else (-n, n - 1)
        return {'kind': 'list', 'v': [num(lo, hi) for _ in range(rng.randint(1, 4))]
                if n else [0]}
    return {'kind': 'mask', 'v': [rng.randint(0, 1)
                                  for _ in range(n + (rng.random() < .1))] or [1]}


def python_ops(rng, case, names):
    w, h = case['scan']
    at = {}
    for f in case['files']:
        for r in f['records']:
            at.setdefault(r['y'] * w + r['x'], set()).add(r['frame'])
    n = max([len(x) for x in at.values()] or [0])
    ops = []
    for name in names:
        if name in ('NumPerScan', 'Scan'):
            ops.append({'op': name})
            continue
        image = rng.choice(sorted(at)) if at and rng.random() < .8 else rng.randrange(w * h)
        kind = {'All': 'all', 'Int': 'int', 'Slice': 'slice', 'List': 'list',
                'Mask': 'mask'}.get(name)
        m = len(at.get(image, ())) if rng.random() < .6 else n
        sel = random_selector(rng, n if kind == 'mask' else m, kind)
        if rng.random() < .5:
            pos = {'kind': 'int', 'v': image}
        else:
            pos = {'kind': rng.choice(['tuple', 'list']), 'v': [image // w, image % w]}
        if name == 'BadPos':
            if pos['kind'] == 'int':
                pos['v'] = rng.choice([w * h, w * h + 3, -1])
            else:
                pos['v'] = rng.choice([[h, 0], [0, w], [-1, 0], [0, -1], [h, w]])
        ops.append({'op': 'ReadFrames', 'pos': pos, 'sel': sel, 'np': rng.random() < .5})
    return ops


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'MultiPass', 'MultiPassQuick.cfg')
    if not c.quick:
        c.background(c.mc, 'MultiPass', 'MultiPassCalls.cfg', heap='5g')
    scripts = c.gen('GenCalls', c.pick('GenCallsRandom.cfg', 'GenCallsRandomThorough.cfg'))
    small = c.build('small')
    cases = []
    for s in scripts:
        for _ in range(c.pick(2, 3)):
            case = multipass_case(rng, rng.choice([1, 4, 8]))
            case['api'] = 'python'
            case['ops'] = python_ops(rng, case, s)
            cases.append(case)
    for k in range(c.pick(100, 1000)):
        case = multipass_case(rng, rng.choice([4, 12, 30]))
        case['api'] = 'python'
        case['ops'] = python_ops(rng, case, [rng.choice(
            ['All', 'Int', 'Slice', 'List', 'Mask', 'BadPos', 'Int', 'NumPerScan', 'Scan'])
            for _ in range(12)])
        cases.append(case)
    c.conform('d_multipass.py', 'TraceMultiPass', cases, small)
    # The C++ interface, mixed with readAll
    lib = c.build('sched')
    scripts = c.gen('GenCalls', c.pick('GenCallsMultiPass.cfg', 'GenCallsMultiPassThorough.cfg'))
    cases = []
    for s in scripts:
        case = multipass_case(rng, rng.choice([1, 4, 12]))
        case['api'] = 'cpp'
        case['ops'] = concrete_ops(rng, case, s)
        cases.append(case)
    c.conform('d_multipass.py', 'TraceMultiPass', cases, lib, preload=c.sched_lib(lib),
              confirm=6)
    # The real size of the detector
    full = c.build('full')
    cases = []
    for k in range(c.pick(6, 24)):
        case = multipass_case(rng, 3)
        if not any(f['records'] for f in case['files']):
            continue
        from sectorcases import record_size
        case['size'] = 576
        for f in case['files']:
            f['bytes'] = len(f['records']) * record_size(576)
        case['api'] = 'python'
        case['ops'] = python_ops(rng, case, ['All', 'NumPerScan', 'Int', 'Scan', 'All'])
        cases.append(case)
    c.conform('d_multipass.py', 'TraceMultiPass', cases, full)
