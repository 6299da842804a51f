"""P04: readAll of the multi pass reader, any number of times."""
import random

from schedules import random_schedule
from sectorcases import concretize, random_layout, random_scan


def multipass_case(rng, frames, lost=(0, .05, .3, .9)):
    nf = rng.randint(1, frames)
    lay = random_layout(rng, nf, rng.choice([1, 1, 1, 2, 3]), rng.choice(lost),
                        rng.choice(['sorted', 'near', 'shuffled']))
    case = concretize(rng, lay, version=5, truncate=.1,
                      scan=random_scan(rng, 50000))
    case['threads'] = rng.choice([1, 2, 2, 3, 4, 8, 12])
    return case


def concrete_ops(rng, case, names):
    """The calls of the C++ interface"""
    w, h = case['scan']
    records = [r for f in case['files'] for r in f['records']]
    at = {}
    for r in records:
        at.setdefault(r['y'] * w + r['x'], set()).add(r['frame'])
    ops = []
    for n in names:
        op = {'op': n, 's': random_schedule(rng)}
        image = rng.choice(sorted(at)) if at and rng.random() < .8 else rng.randrange(w * h)
        k = len(at.get(image, ()))
        if n in ('Load', 'LoadAll', 'LoadBad'):
            op['op'] = 'Load'
            op['image'] = image
            if n == 'LoadAll':
                op['idx'] = list(range(k))
            elif n == 'Load':
                op['idx'] = [rng.randrange(k) for _ in range(rng.randint(0, 4))] if k else []
            elif rng.random() < .5:
                op['idx'] = list(range(min(k, 2))) + [k + rng.choice([0, 0, 1, 1 << 30])]
            else:
                op['image'] = w * h + rng.choice([0, 0, 1, 1 << 30])
                op['idx'] = [0]
        elif n == 'NumFrames':
            op['image'] = image if rng.random() < .8 else w * h + rng.choice([0, 5])
        ops.append(op)
    return ops


def run(c):
    rng = random.Random(c.seed)
    c.background(c.mc, 'MultiPass', 'MultiPassLive.cfg')
    for x in c.pick(['Quick'], ['Calls', 'Files', 'Frames']):
        c.background(c.mc, 'MultiPass', f'MultiPass{x}.cfg', heap='5g')
    scripts = c.gen('GenCalls', c.pick('GenCallsMultiPass.cfg', 'GenCallsMultiPassThorough.cfg'))
    lib = c.build('sched')
    cases = []
    for s in scripts:
        if 'ReadAll' not in s:
            continue
        case = multipass_case(rng, rng.choice([1, 4, 12]))
        case['api'] = 'cpp'
        case['ops'] = concrete_ops(rng, case, s)
        cases.append(case)
    for k in range(c.pick(200, 2000)):
        case = multipass_case(rng, rng.choice([4, 12, 40]))
        case['api'] = 'cpp'
        names = [rng.choice(['ReadAll'] * 4 + ['LoadAll']) for _ in range(rng.choice([2, 4, 8]))]
        case['ops'] = concrete_ops(rng, case, names)
        cases.append(case)
    c.conform('d_multipass.py', 'TraceMultiPass', cases, lib, preload=c.sched_lib(lib),
              confirm=6)
    c.assumptions.append('the schedules are those that random delays at function entries, '
                         'mutex operations and reads produce; they are not enumerated')
